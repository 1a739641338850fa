From 6d84e270f49b235cf37265a83f7d9dcbaa1b4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 001/362] fix: OSFilePath mixes binary paths and character
 string constants in Python 3

On platforms where os.path.supports_unicode_filenames is False (Linux) paths
were held as bytes while sep, curdir, pardir and ext are always str.  Use
character strings throughout, and return lists from listdir and walk.
---
 pyslet/vfs.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index e92125c..1c69ae6 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -936,8 +936,11 @@ class OSFilePath(VirtualFilePath):
     string is consistent with the use of file:/// to reference the
     local file system."""
 
-    supports_unicode_filenames = os.path.supports_unicode_filenames
-    """Copied from os.path
+    supports_unicode_filenames = os.path.supports_unicode_filenames or not py2
+    """Copied from os.path, always True in Python 3
+
+    In Python 3 the path functions (and constants like os.sep) in the os
+    module use character strings on all platforms.
 
     That means you won't know ahead of time whether paths are expected
     as binary or unicode strings.  In most cases it won't matter as the
@@ -971,13 +974,13 @@ class OSFilePath(VirtualFilePath):
     #: copied from os.extsep
     ext = os.extsep
 
-    drive_sep = ul(":") if os.path.supports_unicode_filenames else b":"
+    drive_sep = ul(":") if supports_unicode_filenames else b":"
     """always set to ':'
 
     Correctly set to either binary or character string depending on the
     setting of :attr:`supports_unicode_filenames`."""
 
-    empty = ul("") if os.path.supports_unicode_filenames else b""
+    empty = ul("") if supports_unicode_filenames else b""
     """Set to the empty string
 
     Uses either a binary or character string depending on the setting of
@@ -1071,7 +1074,7 @@ class OSFilePath(VirtualFilePath):
         os.remove(self.path)
 
     def listdir(self):
-        return map(lambda x: OSFilePath(x), os.listdir(self.path))
+        return [OSFilePath(x) for x in os.listdir(self.path)]
 
     def chdir(self):
         os.chdir(self.path)
@@ -1086,7 +1089,8 @@ class OSFilePath(VirtualFilePath):
         def wrap(fname):
             return OSFilePath(fname)
         for dirpath, dirnames, filenames in os.walk(self.path):
-            yield wrap(dirpath), map(wrap, dirnames), map(wrap, filenames)
+            yield (wrap(dirpath), [wrap(d) for d in dirnames],
+                   [wrap(f) for f in filenames])
 
     def rmtree(self, ignore_errors=False):
         shutil.rmtree(self.path, ignore_errors)
-- 
2.43.0


From 082b78f142ba9140743ac809df486a0362a63a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 002/362] fix: Element.get_or_add_child fails in Python 3
 (generator has no next method)

---
 pyslet/xml/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 7ce723e..bf98504 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1865,7 +1865,7 @@ class Element(Node):
         If there is no child of that class then a new child is added."""
         children = self.find_children_depth_first(child_class, max_depth=1)
         try:
-            return children.next()
+            return next(children)
         except StopIteration:
             return self.add_child(child_class)
 
-- 
2.43.0


From a2d817632250371e1a15655ebbdd9778c1473f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 003/362] fix: SQL connection pool uses Thread.isAlive, removed
 in Python 3.9

---
 pyslet/odata2/sqlds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index b96ba75..4712984 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4809,7 +4809,7 @@ class SQLEntityContainer(object):
         with self.cpool_lock:
             locked_list = list(dict_values(self.cpool_locked))
             for cpool_item in locked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.error(
                         "Thread[%i] failed to release database connection "
                         "before terminating", cpool_item.thread_id)
@@ -4817,7 +4817,7 @@ class SQLEntityContainer(object):
                     to_close.append(cpool_item.dbc)
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.debug(
                         "pool_cleaner moving database connection to idle "
                         "after Thread[%i] terminated",
@@ -4923,7 +4923,7 @@ class SQLEntityContainer(object):
                             "before closing container", cpool_item.thread_id)
                         del self.cpool_locked[cpool_item.thread_id]
                         to_close.append(cpool_item.dbc)
-                    elif not cpool_item.thread.isAlive():
+                    elif not cpool_item.thread.is_alive():
                         logging.error(
                             "Thread[%i] failed to release database connection "
                             "before terminating", cpool_item.thread_id)
-- 
2.43.0


From 0c0681ef7c6b9b747715b6c0147748d6e3cd5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 004/362] fix: Pipe.readall leaves a non-blocking pipe in
 blocking mode

---
 pyslet/streams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 65baddd..536afe5 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -592,7 +592,7 @@ class Pipe(io.RawIOBase):
                     else:
                         data.append(part)
             finally:
-                self.rlocking = save_rblocking
+                self.rblocking = save_rblocking
 
     def _consolidate_buffer(self):
         with self.lock:
-- 
2.43.0


From e59b044fe0cbccfb0e72c276317aa93c07170d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 005/362] fix: writing an empty bytearray to a Pipe signals EOF
 to the reader

---
 pyslet/streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 536afe5..ec24408 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -487,6 +487,9 @@ class Pipe(io.RawIOBase):
                 return nbytes
             elif isinstance(b, bytearray):
                 nbytes = len(b)
+                if not nbytes:
+                    # an empty buffer would look like EOF to the reader
+                    return 0
                 if nbytes > wlen:
                     nbytes = wlen
                     # partial copy, creates transient bytearray :(
-- 
2.43.0


From d459bea229217709a46740b6cc28f27002b33f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 006/362] fix: Pipe.readmatch leaks buffer space when it
 consolidates the buffer

---
 pyslet/streams.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index ec24408..7699fb4 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -602,6 +602,7 @@ class Pipe(io.RawIOBase):
             if self.buffer:
                 if self.rpos:
                     self.buffer[0] = self.buffer[0][self.rpos:]
+                    self.bsize -= self.rpos
                     self.rpos = 0
                 self.buffer = [b''.join(self.buffer)]
 
-- 
2.43.0


From abedd7011447e77291ddf3abbee0c5a432020704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 007/362] fix: Pipe.readmatch reports a timeout when woken by
 another reader

---
 pyslet/streams.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 7699fb4..3341ce3 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -656,8 +656,9 @@ class Pipe(io.RawIOBase):
                             cstate = self.wstate
                             logging.debug("Pipe.readmatch waiting for %s",
                                           repr(self))
-                            self.lock.wait(self.timeout)
-                            if self.wstate == cstate:
+                            # another reader may also wake us
+                            if not self.lock.wait(self.timeout) and \
+                                    self.wstate == cstate:
                                 logging.warning(
                                     "Pipe.readmatch timed out for %s",
                                     repr(self))
-- 
2.43.0


From 4fd92b85899d12f3799aa2402e445d629914120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 008/362] fix: GzipEncoder loses compressed data that does not
 fit the read buffer

---
 pyslet/http/messages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f1b0f0..b4fb13b 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -45,12 +45,12 @@ class GzipEncoder(io.RawIOBase):
             if self.buffstr:
                 # we have some buffered data left over
                 if len(self.buffstr) > nbytes:
-                    self.buffstr = data[nbytes:]
-                    b[:] = data[:nbytes]
+                    b[:nbytes] = self.buffstr[:nbytes]
+                    self.buffstr = self.buffstr[nbytes:]
                 else:
                     nbytes = len(self.buffstr)
                     b[:nbytes] = self.buffstr
-                self.buffstr = None
+                    self.buffstr = None
                 return nbytes
             elif self.src is not None:
                 data = self.src.read(nbytes)
-- 
2.43.0


From 971550414ee164fa5ac0075bade46b0ba7d8fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 009/362] fix: ChunkedReader returns garbage when its source
 makes a short read

---
 pyslet/http/messages.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index b4fb13b..4b83e5d 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -179,7 +179,12 @@ class ChunkedReader(io.RawIOBase):
         nbytes = len(b)
         if nbytes > self.chunk_left:
             nbytes = self.chunk_left
-        b[:nbytes] = self.src.read(nbytes)
+        data = self.src.read(nbytes)
+        if data is None:
+            # read blocked
+            return None
+        nbytes = len(data)
+        b[:nbytes] = data
         self.chunk_left -= nbytes
         return nbytes
 
-- 
2.43.0


From c6283b0fb2a6fd539f9880174ea6b88915fa561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 010/362] fix: WSGIInputWrapper.seek beyond its buffer skips
 too few bytes

---
 pyslet/http/messages.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 4b83e5d..b352d16 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -304,8 +304,6 @@ class WSGIInputWrapper(io.RawIOBase):
                 data = self.read(n)
                 if len(data) == 0:
                     break
-                else:
-                    self.pos += len(data)
         # new_pos may be beyond the end of the input stream, that's OK
         self.pos = new_pos
 
-- 
2.43.0


From d01aaad79d410f88c08ea9b146b63e4c8454cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 011/362] fix: WSGIInputWrapper.readinto raises TypeError in
 Python 3

---
 pyslet/http/messages.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index b352d16..f79be95 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -339,10 +339,7 @@ class WSGIInputWrapper(io.RawIOBase):
     def readinto(self, b):
         n = len(b)
         data = self.read(n)
-        i = 0
-        for d in data:
-            b[i] = ord(d)
-            i = i + 1
+        b[:len(data)] = data
         return len(data)
 
     def readline(self, limit=-1):
-- 
2.43.0


From 53cdd00351df05f102bb2533e112609e3117ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 012/362] fix: iterating over the lines of a WSGIInputWrapper
 never ends

---
 pyslet/http/messages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index f79be95..b3e6b97 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -389,8 +389,9 @@ class WSGIInputWrapper(io.RawIOBase):
     def __iter__(self):
         while True:
             line = self.readline()
-            if line:
-                yield line
+            if not line:
+                break
+            yield line
 
 
 class Message(PEP8Compatibility, object):
-- 
2.43.0


From cc1fa4852b70d5b750cdbf5f1011d405c9c7bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 013/362] fix: BufferedStreamWrapper.seek returns None, a
 failed seek moves the stream

---
 pyslet/streams.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 3341ce3..782d96f 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -119,15 +119,17 @@ class BufferedStreamWrapper(io.RawIOBase):
         if self.overflow:
             raise io.UnsupportedOperation
         elif whence == io.SEEK_SET:
-            self.pos = offset
+            pos = offset
         elif whence == io.SEEK_CUR:
-            self.pos += offset
+            pos = self.pos + offset
         elif whence == io.SEEK_END:
-            self.pos = self.length + offset
+            pos = self.length + offset
         else:
             raise ValueError("unrecognized whence value in seek: %s" %
                              repr(whence))
-        self.buff.seek(self.pos)
+        self.buff.seek(pos)
+        self.pos = pos
+        return pos
 
     def readinto(self, b):
         if self.pos < self.bsize:
-- 
2.43.0


From 399948baab970b401e9acddaf329d1f2ff0133a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 014/362] fix: opening a stored stream for writing does not
 truncate it

---
 pyslet/blockstore.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 32f5e9e..dc23b8a 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -647,6 +647,14 @@ class BlockStream(io.RawIOBase):
                 self.blocks = []
                 self._md5 = hashlib.md5()
                 self._md5num = 0
+                if self.size:
+                    # force the new size to be written
+                    self.size = 0
+                    self._set_btop()
+                    self._bdata = b''
+                    self._bdirty = True
+                    self.flush()
+                    self._bdata = None
             else:
                 self.blocks = list(self.ss.retrieve_blocklist(self.stream))
 
-- 
2.43.0


From 929ba623a895c31607a71f979ace2ae335e5a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 015/362] fix: stored streams opened in append mode can't be
 written

---
 pyslet/blockstore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index dc23b8a..0a70408 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -628,7 +628,7 @@ class BlockStream(io.RawIOBase):
         self.ss = ss
         self.stream = stream
         self.r = "r" in mode or "+" in mode
-        self.w = "w" in mode or "+" in mode
+        self.w = "w" in mode or "a" in mode or "+" in mode
         self.size = stream['size'].value
         self.block_size = self.ss.bs.max_block_size
         self._bdata = None
-- 
2.43.0


From 0c0679c09ea18edcf2ed38422ce90a82465a7ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 016/362] fix: BlockStream.seek accepts negative positions and
 returns None

---
 pyslet/blockstore.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 0a70408..2a581d7 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -674,13 +674,16 @@ class BlockStream(io.RawIOBase):
 
     def seek(self, offset, whence=io.SEEK_SET):
         if whence == io.SEEK_SET:
-            self.pos = offset
+            pos = offset
         elif whence == io.SEEK_CUR:
-            self.pos += offset
+            pos = self.pos + offset
         elif whence == io.SEEK_END:
-            self.pos = self.size + offset
+            pos = self.size + offset
         else:
             raise IOError("bad value for whence in seek")
+        if pos < 0:
+            raise IOError("negative position in seek")
+        self.pos = pos
         new_bnum = self.pos // self.block_size
         if new_bnum != self._bnum:
             self.flush()
@@ -688,6 +691,7 @@ class BlockStream(io.RawIOBase):
             self._bnum = new_bnum
         self._bpos = self.pos % self.block_size
         self._set_btop()
+        return self.pos
 
     def _set_btop(self):
         if self.size // self.block_size == self._bnum:
-- 
2.43.0


From 812e71c8647ec48ad3b046a91a0c2ef84fbc03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 017/362] fix: seeking beyond the end of a stored stream raises
 IndexError

---
 pyslet/blockstore.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 2a581d7..5693934 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -694,9 +694,13 @@ class BlockStream(io.RawIOBase):
         return self.pos
 
     def _set_btop(self):
-        if self.size // self.block_size == self._bnum:
+        last_bnum = self.size // self.block_size
+        if self._bnum == last_bnum:
             # we're pointing to the last block
             self._btop = self.size % self.block_size
+        elif self._bnum > last_bnum:
+            # we're pointing beyond the end of the stream
+            self._btop = 0
         else:
             self._btop = self.block_size
 
@@ -760,7 +764,16 @@ class BlockStream(io.RawIOBase):
         if self._bdata is None:
             if self._btop <= 0:
                 # add a new empty blocks first
+                if self.size % self.block_size:
+                    # extend the last block, it is no longer the last
+                    last_block = self.blocks[-1]
+                    data = bytearray(self.block_size)
+                    last_data = self.ss.retrieve_block(last_block)
+                    data[:len(last_data)] = last_data
+                    self.ss.update_block(last_block, bytes(data))
+                    self._md5 = None
                 last_block = len(self.blocks)
+                self.size = last_block * self.block_size
                 while last_block < self._bnum:
                     self.blocks.append(self.ss.store_block(
                         self.stream, last_block, bytearray(self.block_size)))
-- 
2.43.0


From b8e1af61789b51aa9ac8aea547370820619bb41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 018/362] fix: FileBlockStore.retrieve raises IOError if the
 block is deleted concurrently

---
 pyslet/blockstore.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 5693934..5b53051 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -1,6 +1,7 @@
 #! /usr/bin/env python
 
 import binascii
+import errno
 import hashlib
 import io
 import logging
@@ -171,9 +172,15 @@ class FileBlockStore(BlockStore):
     def retrieve(self, key):
         path = self.dpath.join(key[0:2], key[2:4], key[4:])
         if path.exists():
-            with path.open('rb') as f:
-                data = f.read()
-            return data
+            try:
+                with path.open('rb') as f:
+                    data = f.read()
+                return data
+            except IOError as e:
+                # catch race condition where path is gone already
+                if e.errno == errno.ENOENT:
+                    raise BlockMissing
+                raise
         else:
             raise BlockMissing
 
-- 
2.43.0


From 9caec2569ac84f2fb51e2b192ffcf589b839eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 019/362] fix: LockStore.lock raises TypeError with a
 fractional timeout

---
 pyslet/blockstore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 5b53051..a1e496e 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -345,7 +345,7 @@ class LockStore(object):
                         continue
                     except edm.ConstraintError:
                         pass
-                twait = random.randint(0, timeout // 5)
+                twait = random.randint(0, int(timeout // 5))
                 tnow = time.time()
         logging.warning("LockingBlockStore: timeout locking %s", hash_key)
         raise LockError
-- 
2.43.0


From 15c685a604b8c248a11cfb2bbe3507e797790ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 020/362] fix: SQLiteStreamStore ignores dpath, stores blocks
 in a temporary directory

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 4712984..a44af2f 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5719,7 +5719,7 @@ class SQLiteStreamStore(blockstore.StreamStore):
                                                container=self.container_def)
         if create:
             self.container.create_all_tables()
-        if dpath is None:
+        if dpath is not None:
             bs = blockstore.FileBlockStore(dpath)
         else:
             bs = blockstore.EDMBlockStore(
-- 
2.43.0


From 3d2a89588c296d7bbd72276e7fcb3b54700ae397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 021/362] fix: iterating over an in-memory entity set fails if
 the set is modified

---
 pyslet/odata2/memds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 6711cad..dd9917a 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -109,7 +109,7 @@ class InMemoryEntityStore(object):
         deleted during the iteration *may* not be yielded but an entity
         inserted during the iteration will never be yielded."""
         with self.container.lock:
-            keys = dict_keys(self.data)
+            keys = list(dict_keys(self.data))
         for k in keys:
             e = self.read_entity(k, select)
             if e is not None:
-- 
2.43.0


From 8a68e6f466bee1b14f2d624d1cbb56e44d87d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 022/362] fix: deleting an in-memory entity is not thread-safe,
 a concurrent delete is ignored

---
 pyslet/odata2/memds.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index dd9917a..1aad497 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -484,6 +484,11 @@ class EntityCollection(odata.EntityCollection):
         """We do a cascade delete of everything that *must* be linked to
         us. We don't need to bother about deleting links because the
         delete hooks on entity_store do this automatically."""
+        # start_deleting_entity and friends require the container lock
+        with self.entity_store.container.lock:
+            self._delete_entity(key)
+
+    def _delete_entity(self, key):
         if not self.entity_store.start_deleting_entity(key):
             # we're already being deleted so do nothing
             return
-- 
2.43.0


From b08b8cbaabfc3a73fc08fec7cebd522f7a6f01f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 023/362] fix: padding a fixed length Binary concurrency token
 raises TypeError in Python 3

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3d6b431..c5c6ba6 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -2774,7 +2774,7 @@ class Entity(SortableMixin, TypeInstance):
                 if t.p_def.fixedLength:
                     if t.p_def.maxLength > len(h):
                         # we need to zero-pad our binary string
-                        h = h.ljust(t.p_def.maxLength, '\x00')
+                        h = h.ljust(t.p_def.maxLength, b'\x00')
                 t.set_from_value(h)
             elif isinstance(t, StringValue):
                 h = self.generate_ctoken().hexdigest()
-- 
2.43.0


From fb4601c539bf3f61c303412d416100d1fb1fdfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 024/362] fix: CharClass copies share their ranges, changing
 one corrupts the other

---
 pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 2a48b2e..2d29521 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -501,7 +501,7 @@ class CharClass(UnicodeMixin):
         else:
             # take a short cut here, if we have no ranges yet just copy them
             for r in c.ranges:
-                self.ranges.append(r)
+                self.ranges.append([r[0], r[1]])
         self._clear_cache()
 
     def subtract_class(self, c):
-- 
2.43.0


From 16475abd567d341a2b7fe42d0ec6b84432a799ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 025/362] fix: subtracting a CharClass from itself leaves some
 characters behind

---
 pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 2d29521..c3408e8 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -506,7 +506,7 @@ class CharClass(UnicodeMixin):
 
     def subtract_class(self, c):
         """Subtracts all the characters in c from the character class"""
-        for r in c.ranges:
+        for r in list(c.ranges):
             self.subtract_range(r[0], r[1])
         self._clear_cache()
 
-- 
2.43.0


From ab49c8e626df2d20475fef84d2d94e4ded40ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 026/362] fix: wrong regular expression for the full CharClass
 and the negated backslash

---
 pyslet/unicode5.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index c3408e8..0454967 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -246,6 +246,7 @@ class CharClass(UnicodeMixin):
             return self._re_controls.get(c, c)
 
     _empty_range = ul("[^\\x00-%s]") % character(maxunicode)
+    _full_range = ul("[\\x00-%s]") % character(maxunicode)
 
     def __unicode__(self):
         result = []
@@ -258,13 +259,16 @@ class CharClass(UnicodeMixin):
             # to avoid maxunicode we negate this range
             neg = CharClass(self)
             neg.negate()
+            if not neg.ranges:
+                # every character
+                return self._full_range
             result = to_text(neg)
             if result[0] == "[":
                 return "[^%s]" % result[1:-1]
             elif result[0] == "\\":
                 # we may not need the escape
-                if result == "\\]":
-                    return "[^\\]]"
+                if result in ("\\]", "\\\\"):
+                    return "[^%s]" % result
                 elif result in dict_values(self._re_controls):
                     return "[^%s]" % result
                 else:
-- 
2.43.0


From 93b235808310339a84822312bac94d89a3da1b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 027/362] fix: Date ignores absolute day, ordinal day or week 0
 instead of rejecting it

---
 pyslet/iso8601.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 133de00..6bbfe5a 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -224,12 +224,13 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         absolute_day = kwargs.get('absoluteDay', absolute_day)
         if src is None:
             # explicit form
-            if absolute_day:
+            if absolute_day is not None:
                 self._set_from_absolute_day(absolute_day)
-            elif decade or week or weekday:
+            elif decade is not None or week is not None or \
+                    weekday is not None:
                 self._set_from_week_day(
                     century, decade, year, week, weekday, base)
-            elif ordinal_day:
+            elif ordinal_day is not None:
                 self._set_from_ordinal_day(century, year, ordinal_day, base)
             elif century is None and base is None:
                 # use the origin, but everything else must be None too
@@ -449,7 +450,7 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         else:
             if weekday <= 0 or weekday > 7:
                 raise DateTimeError("weekday %i out of range" % weekday)
-        if week is not None and (week < 0 or week > 53):
+        if week is not None and (week < 1 or week > 53):
             raise DateTimeError("week %i out of range" % week)
         if year is not None and (year < 0 or year > 9):
             raise DateTimeError("year %i within decade is out of range")
-- 
2.43.0


From 47c303671df579cf97bdacdae56e41c40caac480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 028/362] fix: malformed dates and times raise AttributeError,
 TypeError or UnboundLocalError

---
 pyslet/iso8601.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 6bbfe5a..935bd21 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2887,7 +2887,7 @@ class ISO8601Parser(BasicParser):
         d, df = self.parse_date_format(base)
         if not d.complete():
             raise DateTimeError("incomplete date in time point %s" % str(d))
-        if self.the_char not in tdesignators:
+        if self.the_char is None or self.the_char not in tdesignators:
             raise DateTimeError("time-point requires time %s..." % str(d))
         tdesignator = self.the_char
         t, overflow, tf = self.parse_time_format(None, tdesignators)
@@ -2973,7 +2973,7 @@ class ISO8601Parser(BasicParser):
                                 century=v1, decade=v2 // 10, year=v2 %
                                 10, week=v3, base=base), "YYYY-Www"
                     else:
-                        self.BadSyntax("expected digit or W in ISO date")
+                        self.parser_error("expected digit or W in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
                     v3 = self.require_digit_value()
@@ -3005,7 +3005,7 @@ class ISO8601Parser(BasicParser):
                         return Date(
                             year=v1, month=v2, day=v3, base=base), "YY-MM-DD"
                     else:
-                        self.BadSyntax(
+                        self.parser_error(
                             "expected digit or hyphen in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
@@ -3022,7 +3022,7 @@ class ISO8601Parser(BasicParser):
                             decade=v1 // 10, year=v1 %
                             10, week=v2, base=base), "YY-Www"
                 else:
-                    self.BadSyntax("expected digit or W in ISO date")
+                    self.parser_error("expected digit or W in ISO date")
             elif self.the_char == "W":
                 self.next_char()
                 v2 = self.require_digit_value()
@@ -3081,6 +3081,9 @@ class ISO8601Parser(BasicParser):
                             year=v1, week=v2, weekday=v3, base=base), "-YWwwD"
                     else:
                         return Date(year=v1, week=v2, base=base), "-YWww"
+                else:
+                    self.parser_error(
+                        "expected digit, hyphen or W in truncated ISO date")
             elif self.the_char == "-":
                 self.next_char()
                 if self.match_digit():
@@ -3103,7 +3106,7 @@ class ISO8601Parser(BasicParser):
                     v1 = v1 * 10 + self.require_digit_value()
                     return Date(day=v1, base=base), "---DD"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             elif self.the_char == "W":
                 self.next_char()
@@ -3124,13 +3127,13 @@ class ISO8601Parser(BasicParser):
                     v1 = self.require_digit_value()
                     return Date(weekday=v1, base=base), "-W-D"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             else:
-                self.BadSyntax(
+                self.parser_error(
                     "expected digit, hyphen or W in truncated ISO date")
         else:
-            self.BadSyntax("expected digit or hyphen in ISO date")
+            self.parser_error("expected digit or hyphen in ISO date")
 
     def parse_date(self, date, base=None):
         raise DateTimeError(
@@ -3139,7 +3142,7 @@ class ISO8601Parser(BasicParser):
             "         d, tformat = p.parse_date_format(base)")
 
     def parse_time_format(self, base=None, tdesignators="T"):
-        if self.the_char in tdesignators:
+        if self.the_char is not None and self.the_char in tdesignators:
             self.next_char()
             tdesignator = 1
         else:
@@ -3203,7 +3206,7 @@ class ISO8601Parser(BasicParser):
                 tformat = "hh"
         elif self.the_char == "-":
             if tdesignator:
-                self.BadSyntax("time designator T before truncated time")
+                self.parser_error("time designator T before truncated time")
             self.next_char()
             if self.match_digit():
                 v1 = self.require_digit_value()
@@ -3252,12 +3255,14 @@ class ISO8601Parser(BasicParser):
                     hour, minute, second = None, None, v1
                     tformat = "--ss"
             else:
-                self.BadSyntax("expected digit or hyphen in truncated Time")
+                self.parser_error("expected digit or hyphen in truncated Time")
             # truncated forms cannot take timezones, return early
+            if base is None:
+                raise DateTimeError("truncated time with no base")
             t, overflow = base.extend(hour=hour, minute=minute, second=second)
             return t, overflow, tformat
         else:
-            self.BadSyntax("expected digit or hyphen in Time")
+            self.parser_error("expected digit or hyphen in Time")
         if self.the_char is not None and self.the_char in "Z+-":
             # can't be truncated form
             zdirection, zhour, zminute, tzFormat = \
@@ -3303,6 +3308,8 @@ class ISO8601Parser(BasicParser):
             else:
                 zdirection, zhour, zminute = v1, v2, None
                 format = "+hh"
+        else:
+            self.parser_error("expected Z, + or - in time zone")
         return zdirection, zhour, zminute, format
 
     def parse_time(self, t, tbase=None, tdesignators="T"):
@@ -3327,7 +3334,7 @@ class ISO8601Parser(BasicParser):
         value = self.parse_integer()
         if value is None:
             return None, None
-        if self.the_char in ".,":
+        if self.match_one(".,"):
             if not allow_fraction:
                 raise DateTimeError(
                     "fractional component in duration must have lowest order")
@@ -3436,7 +3443,7 @@ class ISO8601Parser(BasicParser):
 
     def parse_fraction(self):
         if not (self.the_char == "." or self.the_char == ","):
-            self.BadSyntax("expected decimal sign")
+            self.parser_error("expected decimal sign")
         self.next_char()
         f = 0
         fmag = 1
@@ -3444,7 +3451,7 @@ class ISO8601Parser(BasicParser):
             f = f * 10 + self.require_digit_value()
             fmag *= 10
         if fmag == 1:
-            self.BadSyntax("expected decimal digit")
+            self.parser_error("expected decimal digit")
         return float(f) / float(fmag)
 
     def require_digit_value(self):
-- 
2.43.0


From 4a814fb8c10867acc800d3cf7edfc4d7502665af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 029/362] fix: Time.offset goes wrong with fractional or
 negative fractional offsets

---
 pyslet/iso8601.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 935bd21..cc7da20 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1466,8 +1466,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 raise DateTimeError("second precision required")
             second = second + seconds
             if isinstance(second, float):
-                fs, s = modf(second)
-                s = int(s)
+                s = int(floor(second))
+                fs = second - s
                 minutes += s // 60
                 second = float(s % 60) + fs
             else:
@@ -1481,10 +1481,10 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             if isinstance(minute, float):
                 if second is not None:
                     raise DateTimeError("minute precision required")
-                fm, m = modf(minute)
-                m = int(m)
-                hours += minute // 60
-                minute = float(minute % 60) + fm
+                m = int(floor(minute))
+                fm = minute - m
+                hours += m // 60
+                minute = float(m % 60) + fm
             else:
                 hours += minute // 60
                 minute = minute % 60
@@ -1494,10 +1494,10 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             if isinstance(hour, float):
                 if minute is not None:
                     raise DateTimeError("hour precision required")
-                fh, h = modf(hour)
-                h = int(h)
-                days += float(h // 24)
-                hour = float(hour % 24) + fh
+                h = int(floor(hour))
+                fh = hour - h
+                days += h // 24
+                hour = float(h % 24) + fh
             else:
                 days += hour // 24
                 hour = hour % 24
-- 
2.43.0


From a0be9f3b5196f0ee5d7ed58827a9a8d9955bb2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 030/362] fix: shift_zone fails in the last fractional minute
 or hour of the hour or day

---
 pyslet/iso8601.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index cc7da20..cbb8059 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1562,14 +1562,14 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         hour = self.hour
         if minute is not None:
             minute = minute + zshift % 60
-            if minute > 59:
+            if minute >= 60:
                 hour += 1
                 minute -= 60
             elif minute < 0:
                 hour -= 1
                 minute += 60
         hour = hour + zshift // 60
-        if hour > 23:
+        if hour >= 24:
             hour -= 24
             overflow = 1
         elif hour < 0:
-- 
2.43.0


From 8710b6e826afe68abb19fbf52e568c82f0a7eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 031/362] fix: truncated time at minute precision raises
 TypeError in Python 3

---
 pyslet/iso8601.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index cbb8059..bfbf27b 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1428,6 +1428,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 new_minute = minute
                 new_second = second
                 if new_minute < base_minute or (new_minute == base_minute and
+                                                new_second is not None and
                                                 new_second < base_second):
                     add_hour = 1
         else:
-- 
2.43.0


From 02b93fa8d02ee9cf6c174e3623510c4201b1fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 032/362] fix: week date truncated to decade fails at the turn
 of the century

---
 pyslet/iso8601.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index bfbf27b..eacde03 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -495,6 +495,9 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
                                self.day is not None and
                                self.day < base_weekday)))):
                         self.year += (baseDecade + 1) * 10
+                        if self.year > 99:
+                            self.year -= 100
+                            self._add_century()
                     else:
                         self.year += baseDecade * 10
             else:
-- 
2.43.0


From fe033158670c2ac7acc0b776ebf1091371279f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 033/362] fix: 24:00:00 does not compare equal to the following
 midnight

---
 pyslet/iso8601.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index eacde03..16573ff 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1949,10 +1949,12 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
 
     def sortkey(self):
         z = self.get_zone_offset()
+        # the two representations of midnight are equivalent
+        hour = 0 if self.hour == 24 else self.hour
         if z is None:
-            return (self.hour, self.minute, self.second)
+            return (hour, self.minute, self.second)
         else:
-            return (self.hour, self.minute, self.second, z)
+            return (hour, self.minute, self.second, z)
 
     def otherkey(self, other):
         if is_string(other):
@@ -2443,7 +2445,11 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
             return self.shift_zone(zdirection=0).sortkey()
         else:
             # no zone, or Zulu time
-            return tuple(list(self.date.sortkey()) + list(self.time.sortkey()))
+            date = self.date
+            if self.time.hour == 24:
+                # midnight at the end of the day
+                date = date.offset(days=1)
+            return tuple(list(date.sortkey()) + list(self.time.sortkey()))
 
     def otherkey(self, other):
         if is_string(other):
-- 
2.43.0


From 7d9bf902459407cd7420ab8e1dc984c415729107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 034/362] fix: fraction next to one formats with an extra digit

---
 pyslet/iso8601.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 16573ff..ff5d8ed 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1762,7 +1762,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             # less)
             fraction_str = "%s%s%0*i"
             fraction += 2e-13
-            fraction = int(floor(fraction * float(10 ** ndp)))
+            fraction = min(int(floor(fraction * float(10 ** ndp))),
+                           10 ** ndp - 1)
             stem = fraction_str % (stem, dp, ndp, fraction)
         if truncation == NoTruncation:
             # untruncated forms can have a zone string
@@ -2693,7 +2694,8 @@ class Duration(UnicodeMixin, PEP8Compatibility):
                             fraction_str = "%i.%0*i"
                             ndp = -ndp
                         fraction += 2e-13
-                        fraction = int(floor(fraction * float(10 ** ndp)))
+                        fraction = min(int(floor(fraction * float(10 ** ndp))),
+                                       10 ** ndp - 1)
                         components[i] = fraction_str % (value, ndp, fraction)
                     else:
                         components[i] = str(value)
-- 
2.43.0


From df8651e79104244ac3b0a6dd212a536c621ed528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 035/362] fix: durations in weeks can be parsed but not
 formatted

---
 pyslet/iso8601.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index ff5d8ed..8581790 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2708,8 +2708,20 @@ class Duration(UnicodeMixin, PEP8Compatibility):
                 return 'P' + date_part + 'T' + time_part
             else:
                 return 'P' + date_part
+        elif isinstance(self.weeks, float):
+            fraction, value = modf(self.weeks)
+            value = int(value)
+            if ndp:
+                dp = ',' if ndp > 0 else '.'
+                ndp = abs(ndp)
+                fraction += 2e-13
+                fraction = min(int(floor(fraction * float(10 ** ndp))),
+                               10 ** ndp - 1)
+                return 'P%i%s%0*iW' % (value, dp, ndp, fraction)
+            else:
+                return 'P%iW' % value
         else:
-            raise NotImplementedError
+            return 'P%iW' % self.weeks
 
     def set_from_duration(self, src):
         self.years = src.years
-- 
2.43.0


From 35adff6dec2aac038de6c35761d03b233c1ddec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 036/362] fix: time zone minutes out of range are accepted

---
 pyslet/iso8601.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 8581790..467d2ae 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1320,6 +1320,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 "non-zero UTC offset requires at least hour zone precision")
         elif zminute is None:
             self.zoffset = zhour * 60
+        elif zminute < 0 or zminute > 59:
+            raise DateTimeError("zone minute out of range %i" % zminute)
         else:
             self.zoffset = zhour * 60 + zminute
 
-- 
2.43.0


From 3ac79eac78643d6d46c6ec4a97a76db72082bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 037/362] fix: dates, times and durations followed by anything
 are accepted

---
 pyslet/iso8601.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 467d2ae..bc59db2 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -718,6 +718,7 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         if is_text(src):
             p = ISO8601Parser(src)
             d, dFormat = p.parse_date_format(base)
+            p.require_end("end of date")
         else:
             raise TypeError
         return d
@@ -733,7 +734,9 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
                         # f is set to "YYYY-MM-DD". """
         if is_text(src):
             p = ISO8601Parser(src)
-            return p.parse_date_format(base)
+            result = p.parse_date_format(base)
+            p.require_end("end of date")
+            return result
         else:
             raise TypeError
 
@@ -1620,6 +1623,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(src):
             p = ISO8601Parser(src)
             t, overflow, f = p.parse_time_format(base)
+            p.require_end("end of time")
             return t
         else:
             raise TypeError
@@ -1631,6 +1635,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(zone_str):
             p = ISO8601Parser(zone_str)
             zdirection, zhour, zminute, format = p.parse_time_zone_format()
+            p.require_end("end of time zone")
             return self.with_zone(
                 zdirection=zdirection, zhour=zhour, zminute=zminute)
         else:
@@ -1645,6 +1650,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(zone_str):
             p = ISO8601Parser(zone_str)
             zdirection, zhour, zminute, format = p.parse_time_zone_format()
+            p.require_end("end of time zone")
             return self.with_zone(
                 zdirection=zdirection, zhour=zhour, zminute=zminute), format
         else:
@@ -1662,7 +1668,9 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         parsed, e.g., "hhmmss"."""
         if is_text(src):
             p = ISO8601Parser(src)
-            return p.parse_time_format(base)
+            result = p.parse_time_format(base)
+            p.require_end("end of time")
+            return result
         else:
             raise TypeError
 
@@ -2259,6 +2267,7 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
         if is_text(src):
             p = ISO8601Parser(src)
             tp, f = p.parse_time_point_format(base, tdesignators)
+            p.require_end("end of time point")
             return tp
         else:
             raise TypeError
@@ -2277,7 +2286,9 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
         tdesignators = kwargs.get('tDesignators', tdesignators)
         if is_text(src):
             p = ISO8601Parser(src)
-            return p.parse_time_point_format(base, tdesignators)
+            result = p.parse_time_point_format(base, tdesignators)
+            p.require_end("end of time point")
+            return result
         else:
             raise TypeError
 
@@ -2662,7 +2673,9 @@ class Duration(UnicodeMixin, PEP8Compatibility):
     def set_from_string(self, duration_str):
         if is_text(duration_str):
             p = ISO8601Parser(duration_str)
-            return p.parse_duration(self)
+            result = p.parse_duration(self)
+            p.require_end("end of duration")
+            return result
         else:
             raise TypeError
 
-- 
2.43.0


From 8f6369bee64b00ded8e26d807c22ca3e8353d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 038/362] fix: compare 24:00:00 as the following midnight in
 time points only

---
 pyslet/iso8601.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index bc59db2..cd52214 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1960,12 +1960,10 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
 
     def sortkey(self):
         z = self.get_zone_offset()
-        # the two representations of midnight are equivalent
-        hour = 0 if self.hour == 24 else self.hour
         if z is None:
-            return (hour, self.minute, self.second)
+            return (self.hour, self.minute, self.second)
         else:
-            return (hour, self.minute, self.second, z)
+            return (self.hour, self.minute, self.second, z)
 
     def otherkey(self, other):
         if is_string(other):
@@ -2459,11 +2457,12 @@ class TimePoint(PEP8Compatibility, UnicodeMixin, SortableMixin):
             return self.shift_zone(zdirection=0).sortkey()
         else:
             # no zone, or Zulu time
-            date = self.date
+            date, time = self.date.sortkey(), self.time.sortkey()
             if self.time.hour == 24:
                 # midnight at the end of the day
-                date = date.offset(days=1)
-            return tuple(list(date.sortkey()) + list(self.time.sortkey()))
+                date = self.date.offset(days=1).sortkey()
+                time = (0, ) + time[1:]
+            return tuple(list(date) + list(time))
 
     def otherkey(self, other):
         if is_string(other):
-- 
2.43.0


From 84eaa0ca8a375b69fd9aa80ed8a6181426b18032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 039/362] fix: fractional minutes after minute 59 are rejected

---
 pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index cd52214..8a69a50 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1949,7 +1949,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             return
         if not isinstance(self.hour, int):
             raise DateTimeError("bad fractional hour %s" % str(self.hour))
-        if self.minute < 0 or self.minute > 59:
+        if self.minute < 0 or self.minute >= 60:
             raise DateTimeError("minute out of range %s" % str(self.minute))
         if self.second is None:
             return
-- 
2.43.0


From 54804a9faa3c69984f65c57ebf581b5817bfc70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 040/362] fix: durations with a fraction in a higher order
 component are accepted

---
 pyslet/iso8601.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 8a69a50..1a9ed60 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -3472,6 +3472,9 @@ class ISO8601Parser(BasicParser):
             # loop backwards through the values
             if values[i] is None:
                 values[i] = def_value
+            elif def_value is not None and isinstance(values[i], float):
+                raise DateTimeError(
+                    "fractional component in duration must have lowest order")
             else:
                 def_value = 0
         format = ''.join(format)
-- 
2.43.0


From d0d5503ae92d9d0888f2d86460e02b8c8da3efbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 041/362] fix: shift_zone fails if the shift exceeds a day,
 e.g., -12:00 to +14:00

---
 pyslet/iso8601.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 1a9ed60..d1965b8 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1541,8 +1541,9 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
 
             (<Time instance>, overflow)
 
-        overflow is one of -1, 0 or 1 indicating if the time over- or
-        under-flowed as a result of the time zone shift."""
+        overflow is the number of days, typically -1, 0 or 1, by which
+        the time over- or under-flowed as a result of the time zone
+        shift."""
         zdirection = kwargs.get('zDirection', zdirection)
         zhour = kwargs.get('zHour', zhour)
         zminute = kwargs.get('zMinute', zminute)
@@ -1578,14 +1579,14 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 hour -= 1
                 minute += 60
         hour = hour + zshift // 60
-        if hour >= 24:
+        # a shift can be more than a day, e.g., from -12:00 to +14:00
+        overflow = 0
+        while hour >= 24:
             hour -= 24
-            overflow = 1
-        elif hour < 0:
+            overflow += 1
+        while hour < 0:
             hour += 24
-            overflow = -1
-        else:
-            overflow = 0
+            overflow -= 1
         return type(self)(hour=hour, minute=minute, second=second,
                           zdirection=zdirection, zhour=zhour,
                           zminute=zminute), overflow
-- 
2.43.0


From 53d30b5786e40e0f007601b9ae6ff5ada322dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 042/362] fix: relative() gives references that resolve to
 something else

---
 pyslet/rfc2396.py | 52 +++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 835a242..858031f 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -529,23 +529,22 @@ def normalize_segments(path_segments):
 
 
 def _relativize_segments(path_segments, base_segments):
-    result = []
+    # the last segment is always given, the last base segment is ignored
     pos = 0
-    while pos < len(base_segments):
-        if result:
-            result = ['..'] + result
-        else:
-            if (pos >= len(path_segments) or
-                    base_segments[pos] != path_segments[pos]):
-                result = result + path_segments[pos:]
+    while (pos < len(base_segments) - 1 and pos < len(path_segments) - 1 and
+            base_segments[pos] == path_segments[pos]):
         pos = pos + 1
-    if not result and len(path_segments) > len(base_segments):
-        # full match but path_segments is longer
-        return path_segments[len(base_segments) - 1:]
-    elif result == ['']:
-        return ['.'] + result
+    result = ['..'] * (len(base_segments) - 1 - pos) + path_segments[pos:]
+    return _protect_segments(result)
+
+
+def _protect_segments(segments):
+    # the first segment of a relative path must not be mistaken for the
+    # start of an absolute path, a scheme or an empty path
+    if not segments[0] or ':' in segments[0]:
+        return ['.'] + segments
     else:
-        return result
+        return segments
 
 
 def _make_rel_path_abs(abs_path, base_path):
@@ -581,14 +580,8 @@ def _make_rel_path_rel(rel_path, base_rel_path):
         # e.g., c/d relative to ../a/b - not allowed
         # there is no R such that c/d = ../a/b [*] R
         raise URIRelativeError("%s [/] %s" % (rel_path, base_rel_path))
-    if i:
-        # we have leading '..' components, add a common path prefix and
-        # re-normalize
-        path_segments = ['x'] * i + path_segments
-        normalize_segments(path_segments)
-        base_segments = ['x'] * i + base_segments
-        normalize_segments(base_segments)
-    result = _relativize_segments(path_segments, base_segments)
+    # remove the leading '..' components they have in common
+    result = _relativize_segments(path_segments[j:], base_segments[j:])
     return path_sep.join(result)
 
 
@@ -1323,8 +1316,9 @@ class URI(CmpMixin, PEP8Compatibility):
                     raise URIRelativeError(str(base))
                 abs_path = None
                 if self.rel_path is None:
-                    raise URIRelativeError(str(base))
-                if base.rel_path is None:
+                    authority = self.authority
+                    rel_path = None
+                elif base.rel_path is None:
                     rel_path = self.rel_path
                 else:
                     # two relative paths, calculate self relative to base
@@ -1340,6 +1334,12 @@ class URI(CmpMixin, PEP8Compatibility):
                 # todo: /a/b relative to /c/d really should be '/a/b'
                 # and not ../a/b in particular, drive letters look wrong
                 # in relative paths: ../C:/Program%20Files/
+        query = self.query
+        if (self.authority == base.authority and
+                self.abs_path == base.abs_path and
+                self.rel_path == base.rel_path and query == base.query):
+            # same document reference
+            authority = rel_path = query = None
         result = []
         if authority is not None:
             result.append('//')
@@ -1348,9 +1348,9 @@ class URI(CmpMixin, PEP8Compatibility):
             result.append(abs_path)
         elif rel_path is not None:
             result.append(rel_path)
-        if self.query is not None:
+        if query is not None:
             result.append('?')
-            result.append(self.query)
+            result.append(query)
         if self.fragment is not None:
             result.append('#')
             result.append(self.fragment)
-- 
2.43.0


From a66c9855873aa3dfc56b03bc10a616e5a7342eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 043/362] fix: resolving relative references gives an absolute
 path or a scheme by mistake

---
 pyslet/rfc2396.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 858031f..09d00c2 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1207,11 +1207,9 @@ class URI(CmpMixin, PEP8Compatibility):
                     segments = segments + split_rel_path(self.rel_path)
                     normalize_segments(segments)
                     abs_path = None
-                    rel_path = '/'.join(segments)
-                    if rel_path == '':
-                        # degenerate case, as we are relative we won't prefix
-                        # with /
-                        rel_path = './'
+                    # degenerate cases, as we are relative we won't prefix
+                    # with / and must not look like a scheme
+                    rel_path = '/'.join(_protect_segments(segments))
             else:
                 abs_path = self.abs_path
                 rel_path = None
-- 
2.43.0


From 60c1330480011fdf83d671bc2bb61c31c0fed88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 044/362] fix: relative path resolved against a base with an
 empty path joins the host name

---
 pyslet/rfc2396.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 09d00c2..0c074a1 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1196,7 +1196,7 @@ class URI(CmpMixin, PEP8Compatibility):
         if self.authority is None:
             authority = base.authority
             if self.abs_path is None:
-                if base.abs_path is not None:
+                if base.abs_path is not None or base.authority is not None:
                     segments = split_abs_path(base.abs_path)[:-1]
                     segments = segments + split_rel_path(self.rel_path)
                     normalize_segments(segments)
-- 
2.43.0


From 753e3f660f408dfd701405b7522a651d62481377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 045/362] fix: canonical form of a server-based URL loses its
 opaque part

---
 pyslet/http/params.py | 4 +++-
 pyslet/rfc2396.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 2a083cc..9790f33 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -253,7 +253,9 @@ class HTTPURL(uri.ServerBasedURL):
                 if port != self.DEFAULT_PORT:
                     new_uri.append(':')
                     new_uri.append("%i" % int(self.port))
-        if self.abs_path is not None:
+        if self.opaque_part is not None:
+            new_uri.append(self.opaque_part)
+        elif self.abs_path is not None:
             if not self.abs_path:
                 new_uri.append("/")
             else:
diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 0c074a1..9236b8b 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1508,7 +1508,9 @@ class ServerBasedURL(URI):
                 if port != self.DEFAULT_PORT:
                     new_uri.append(':')
                     new_uri.append("%i" % int(self.port))
-        if self.abs_path is not None:
+        if self.opaque_part is not None:
+            new_uri.append(self.opaque_part)
+        elif self.abs_path is not None:
             new_uri.append(self.abs_path)
         elif self.rel_path is not None:
             new_uri.append(self.rel_path)
-- 
2.43.0


From 4134536f42973eb3abe3be49b32588b07cb9eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 046/362] fix: canonical form of http URL with a missing path
 lacks the documented '/'

---
 pyslet/http/params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 9790f33..baf6efb 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -260,6 +260,8 @@ class HTTPURL(uri.ServerBasedURL):
                 new_uri.append("/")
             else:
                 new_uri.append(uri.canonicalize_data(self.abs_path))
+        elif self.authority is not None:
+            new_uri.append("/")
         elif self.rel_path is not None:
             new_uri.append(uri.canonicalize_data(self.rel_path))
         if self.query is not None:
-- 
2.43.0


From 9d5f4f8147b694b9e5e03544a02e147e83ad052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 047/362] fix: URNs without a namespace identifier raise
 TypeError

---
 pyslet/urn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/urn.py b/pyslet/urn.py
index 324510d..52dd326 100755
--- a/pyslet/urn.py
+++ b/pyslet/urn.py
@@ -166,6 +166,8 @@ class URN(uri.URI):
 
     def parse_scheme_specific_part(self):
         super(URN, self).parse_scheme_specific_part()
+        if self.opaque_part is None:
+            raise uri.URIException("Expected NID in URN: %s" % self.octets)
         pos = 0
         self.nid = self.nss = None
         mode = 0
-- 
2.43.0


From c577b2a7d1ebe166bfe8b24b7e8949cff8676e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 048/362] fix: URN translation accepts malformed escapes

---
 pyslet/urn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/urn.py b/pyslet/urn.py
index 52dd326..781d28e 100755
--- a/pyslet/urn.py
+++ b/pyslet/urn.py
@@ -87,6 +87,9 @@ def translate_from_urnchar(src):
         c = src[pos]
         if c == "%":
             escape = src[pos + 1:pos + 3]
+            if len(escape) != 2 or not (is_hex(escape[0]) and
+                                        is_hex(escape[1])):
+                raise ValueError("Bad escape in URN: %s" % repr(src))
             c = byte(int(escape, 16))
             pos += 3
         elif is_trans(c):
-- 
2.43.0


From 4b5963f7634033b241421fb7de572437ab429355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 049/362] fix: unescape_data loses an incomplete escape at the
 end of the data

---
 pyslet/rfc2396.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 9236b8b..6d1bb3d 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -385,6 +385,11 @@ def unescape_data(source):
                 data.append(byte(mode))
                 data.append(byte(c))
             mode = None
+    if mode is not None:
+        # incomplete escape at the end of the data
+        data.append(byte('%'))
+        if mode != '%':
+            data.append(byte(mode))
     return join_bytes(data)
 
 
-- 
2.43.0


From a22db3e831e955e358fb488bd127241bd9a646e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 050/362] fix: resolving against a relative base ending in '..'
 is not associative

---
 pyslet/rfc2396.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 6d1bb3d..129740d 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1208,8 +1208,10 @@ class URI(CmpMixin, PEP8Compatibility):
                     abs_path = '/' + '/'.join(segments)
                     rel_path = None
                 else:
-                    segments = split_rel_path(base.rel_path)[:-1]
-                    segments = segments + split_rel_path(self.rel_path)
+                    segments = split_rel_path(base.rel_path)
+                    # a trailing '..' is a directory when base is resolved
+                    normalize_segments(segments)
+                    segments = segments[:-1] + split_rel_path(self.rel_path)
                     normalize_segments(segments)
                     abs_path = None
                     # degenerate cases, as we are relative we won't prefix
-- 
2.43.0


From ea3c9d6f066d32a709779fb8c226c6588a2a7d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 051/362] fix: relative() to a base ending in '..' differs from
 resolve()

---
 pyslet/rfc2396.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 129740d..1addb5f 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -556,7 +556,8 @@ def _make_rel_path_abs(abs_path, base_path):
     """Return abs_path relative to base_path"""
     path_segments = split_abs_path(abs_path)
     normalize_segments(path_segments)
-    base_segments = split_abs_path(base_path)
+    # as when resolving, the last base segment is ignored even if '..'
+    base_segments = split_abs_path(base_path)[:-1] + ['']
     normalize_segments(base_segments)
     result = _relativize_segments(path_segments, base_segments)
     return path_sep.join(result)
-- 
2.43.0


From 3be132b11d857e08ebe189e7f0b6c87672db81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 052/362] fix: an empty binary literal is an empty binary
 string

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index c5c6ba6..52d99af 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -641,7 +641,7 @@ class Parser(xsi.BasicParser):
         output = []
         hex_str = self.parse_hex_digits(1)
         if hex_str is None:
-            return ''
+            return b''
         if len(hex_str) % 2:
             raise ValueError(
                 "Trailing nibble in binary literal: '%s'" % hex_str[-1])
-- 
2.43.0


From ab4b96ab2579869b3aebeaa62a35c8d68176d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 053/362] fix: formatting a NULL EDM value raises ValueError

---
 pyslet/odata2/csdl.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 52d99af..0b9736b 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -999,6 +999,13 @@ class SimpleValue(UnicodeMixin, EDMValue):
     def is_null(self):
         return self.value is None
 
+    def type_name(self):
+        """Returns the name of the property or type for use in errors"""
+        if self.p_def:
+            return self.p_def.name
+        else:
+            return self.__class__.__name__
+
     def simple_cast(self, type_code):
         """Returns a new :py:class:`SimpleValue` instance created from *type_code*
 
@@ -1119,7 +1126,7 @@ class BinaryValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is NULL" % self.type_name())
         input = io.BytesIO(self.value)
         output = io.StringIO()
         while True:
@@ -1167,7 +1174,7 @@ class BooleanValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is NULL" % self.type_name())
         return self.utrue if self.value else self.ufalse
 
     def set_from_literal(self, value):
@@ -1248,7 +1255,7 @@ class ByteValue(NumericValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is NULL" % self.type_name())
         return xsi.integer_to_str(self.value)
 
     def set_from_numeric_literal(self, num):
@@ -1309,7 +1316,7 @@ class DateTimeValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is NULL" % self.type_name())
         precision = None
         if self.p_def:
             # check the precision before formatting
@@ -1390,7 +1397,7 @@ class DateTimeOffsetValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is NULL" % self.type_name())
         precision = None
         if self.p_def:
             # check the precision before formatting
@@ -1458,7 +1465,7 @@ class TimeValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is NULL" % self.type_name())
         precision = None
         if self.p_def:
             # check the precision before formatting
@@ -1528,7 +1535,7 @@ class DecimalValue(NumericValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is NULL" % self.type_name())
         t = self.value.as_tuple()
         if t.exponent < -29:
             # CSDL expects a 29-digit limit to the right of the point
@@ -1760,7 +1767,7 @@ class GuidValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is NULL" % self.type_name())
         return to_text(self.value)
 
     def set_from_literal(self, value):
@@ -1894,7 +1901,7 @@ class StringValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is NULL" % self.type_name())
         return to_text(self.value)
 
     def set_from_value(self, new_value):
-- 
2.43.0


From 65da7025e9cac82db7f4547f199b7311191b38d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 054/362] fix: missing fractional digits in a time literal
 raise ValueError

---
 pyslet/odata2/csdl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 0b9736b..7e38a9f 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -693,7 +693,8 @@ class Parser(xsi.BasicParser):
                 second = self.require_production(
                     self.parse_integer(0, 60, 2), "second")
                 if self.parse("."):
-                    nano = self.parse_digits(1, 7)
+                    nano = self.require_production(
+                        self.parse_digits(1, 7), "nano")
                     second += float("0." + nano)
             else:
                 second = 0
@@ -823,7 +824,8 @@ class Parser(xsi.BasicParser):
                 second = self.require_production(
                     self.parse_integer(0, 60, 2), "second")
                 if self.parse("."):
-                    nano = self.parse_digits(1, 7)
+                    nano = self.require_production(
+                        self.parse_digits(1, 7), "nano")
                     second += float("0." + nano)
             else:
                 second = 0
-- 
2.43.0


From dceb4933b23040819d9423070066495c53755963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 055/362] fix: DateTime literals ignore any zone offset

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 7e38a9f..9620d97 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -706,7 +706,7 @@ class Parser(xsi.BasicParser):
                     zh = self.require_production(self.parse_integer(0, 24),
                                                  "zhour")
                     self.require(":")
-                    zm = self.require_production(self.parse_integer(0, 24),
+                    zm = self.require_production(self.parse_integer(0, 59),
                                                  "zminute")
                     logging.warning(
                         "DateTime ignored zone offset: %s%.2i:%.2i",
-- 
2.43.0


From 61980dc7a8f1e4c611927ed69f85ab1ec4652004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 056/362] fix: decimal values of up to 29 digits on each side
 of the point

---
 pyslet/odata2/csdl.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 9620d97..7b031e9 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1523,17 +1523,14 @@ class DecimalValue(NumericValue):
 
     Decimal values can be set from int, (Python 2: long,) float or
     Decimal values."""
-    Max = decimal.Decimal(
-        10) ** 29 - 1     # max decimal in the default context
+    Max = decimal.Decimal("9" * 29)   # independent of the context
     # min decimal for string representation
     Min = decimal.Decimal(10) ** -29
 
     @classmethod
     def abs(cls, d):
-        if d < 0:
-            return -d
-        else:
-            return d
+        # exact, unlike negation which rounds to the context's precision
+        return d.copy_abs()
 
     def __unicode__(self):
         if self.value is None:
@@ -1541,7 +1538,8 @@ class DecimalValue(NumericValue):
         t = self.value.as_tuple()
         if t.exponent < -29:
             # CSDL expects a 29-digit limit to the right of the point
-            d = self.value.quantize(decimal.Decimal(10) ** -29)
+            d = self.value.quantize(decimal.Decimal((0, (1, ), -29)),
+                                    context=decimal.Context(prec=60))
         elif t.exponent + len(t.digits) > 29:
             # CSDL expects a 29-digit limit to the left of the point
             raise ValueError(
@@ -1577,8 +1575,8 @@ class DecimalValue(NumericValue):
             d = decimal.Decimal(new_value)
         else:
             raise TypeError("Can't set Decimal from %s" % str(new_value))
-        if self.abs(d) > self.Max:
-            # too big for CSDL decimal forms
+        if d.is_nan() or self.abs(d) > self.Max:
+            # not a number or too big for CSDL decimal forms
             raise ValueError("Value exceeds limits for Decimal: %s" % str(d))
         # in the interests of maintaining accuracy we don't limit the
         # precision of the value at this point
-- 
2.43.0


From 4bfab81e4ae0370a80849b2294713e1f529f7e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 057/362] fix: float literals with exponents can be parsed
 again

---
 pyslet/odata2/csdl.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 7b031e9..b46787a 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1598,7 +1598,12 @@ class FloatValue(NumericValue):
     :py:class:`DoubleValue` only differ in the Max value used
     when range checking.
 
-    Values are formatted using Python's default string conversion."""
+    Values are formatted using Python's default string conversion, except
+    that the sign of a positive exponent, which is not allowed in a
+    literal, is omitted."""
+
+    def __unicode__(self):
+        return super(FloatValue, self).__unicode__().replace("e+", "e")
 
     def set_from_value(self, new_value):
         if new_value is None:
@@ -1705,6 +1710,18 @@ class SingleValue(FloatValue):
 
     # Min=2.0**-149             #: the smallest positive single value
 
+    def __unicode__(self):
+        result = super(SingleValue, self).__unicode__()
+        digits, e, exp = result.partition("e")
+        if e and (len(digits.strip("-").replace(".", "")) > 9 or
+                  len(exp.strip("-")) > 2):
+            # the exponent form is limited to 9 digits and a two digit
+            # exponent, there is no limit on the decimal form
+            result = to_text(decimal.Decimal(result).__format__('f'))
+            if "." not in result:
+                result += ul(".0")
+        return result
+
     def set_from_numeric_literal(self, num):
         """Decodes a Single value from a :py:class:`Numeric` literal."""
         dstr = self.join_numeric_literal(num)
-- 
2.43.0


From b37c6e9262da4cefc5d76815edd24a052aa9f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 058/362] fix: numeric literals that overflow are out of range,
 not infinite

---
 pyslet/odata2/csdl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index b46787a..38e3945 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1674,7 +1674,10 @@ class DoubleValue(FloatValue):
                 # long exponent not allowed
                 # exponent requires digits to left of point
                 raise ValueError("Illegal exponent form for double: %s" % dstr)
-        self.set_from_value(float(dstr))
+        value = float(dstr)
+        if math.isinf(value) and not num.ldigits.isalpha():
+            raise ValueError("Value for Double out of range: %s" % dstr)
+        self.set_from_value(value)
 
 
 for i in range3(1023, 0, -1):
@@ -1752,7 +1755,10 @@ class SingleValue(FloatValue):
                 # long exponent not allowed
                 # exponent requires digits to left of point
                 raise ValueError("Illegal exponent form for single: %s" % dstr)
-        self.set_from_value(float(dstr))
+        value = float(dstr)
+        if math.isinf(value) and not num.ldigits.isalpha():
+            raise ValueError("Value for Single out of range: %s" % dstr)
+        self.set_from_value(value)
 
 
 for i in range3(127, 0, -1):
-- 
2.43.0


From f49104e52bc991fb80a5d56b65d94b2fecd00449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 059/362] fix: decimal range check counts digits to the left of
 the point

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 38e3945..f3f0f86 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1575,7 +1575,7 @@ class DecimalValue(NumericValue):
             d = decimal.Decimal(new_value)
         else:
             raise TypeError("Can't set Decimal from %s" % str(new_value))
-        if d.is_nan() or self.abs(d) > self.Max:
+        if not d.is_finite() or d.adjusted() > 28:
             # not a number or too big for CSDL decimal forms
             raise ValueError("Value exceeds limits for Decimal: %s" % str(d))
         # in the interests of maintaining accuracy we don't limit the
-- 
2.43.0


From 281a866ece56935fbee350dd1da6258a52df2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 060/362] fix: numbers out of range for a DateTime raise
 ValueError

---
 pyslet/odata2/csdl.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index f3f0f86..d1fc9a5 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1070,6 +1070,13 @@ class SimpleValue(UnicodeMixin, EDMValue):
         You can get the literal form of a value using the unicode function."""
         raise NotImplementedError
 
+    @staticmethod
+    def _from_unix_time(value):
+        try:
+            return iso8601.TimePoint.from_unix_time(float(value))
+        except (iso8601.DateTimeError, OverflowError) as e:
+            raise ValueError("Unix time out of range: %s" % str(e))
+
     def set_default_value(self):
         if self.p_def and self.p_def.defaultValue is not None:
             self.set_from_literal(self.p_def.defaultValue)
@@ -1339,8 +1346,7 @@ class DateTimeValue(SimpleValue):
             self.value = new_value.with_zone(zdirection=None)
         elif isinstance(new_value, (int, long2, float, decimal.Decimal)) and \
                 new_value >= 0:
-            self.value = iso8601.TimePoint.from_unix_time(
-                float(new_value)).with_zone(None)
+            self.value = self._from_unix_time(new_value).with_zone(None)
         elif isinstance(new_value, datetime.datetime):
             self.value = iso8601.TimePoint(
                 date=iso8601.Date(
@@ -1436,7 +1442,7 @@ class DateTimeOffsetValue(SimpleValue):
             self.value = new_value
         elif isinstance(new_value, (int, long2, float, decimal.Decimal)) and \
                 new_value >= 0:
-            self.value = iso8601.TimePoint.from_unix_time(float(new_value))
+            self.value = self._from_unix_time(new_value)
         else:
             raise TypeError(
                 "Can't set DateTimeOffset from %s" % str(new_value))
-- 
2.43.0


From b1623b108c65393a62837df219bf9ef6ed74d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 061/362] fix: Time values out of range raise ValueError

---
 pyslet/odata2/csdl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index d1fc9a5..330bbf1 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1491,9 +1491,8 @@ class TimeValue(SimpleValue):
             self.value = None
         elif isinstance(new_value, iso8601.Time):
             self.value = new_value
-        elif isinstance(new_value, (int, long2, float, decimal.Decimal)) and \
-                new_value >= 0:
-            if new_value < 0:
+        elif isinstance(new_value, (int, long2, float, decimal.Decimal)):
+            if not (0 <= new_value < 86400):
                 raise ValueError(
                     "Can't set Time from %.3f" % float(new_value))
             tvalue = iso8601.Time()
-- 
2.43.0


From cabd7fe022dd167ce366a57e4e34d4acf5e4f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 062/362] fix: repeated unary operators in OData expressions

---
 pyslet/odata2/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 9e9793d..72b25cd 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1435,8 +1435,10 @@ class Parser(edm.Parser):
             # right_op (an operator expression, never None)
             # next job, determine who binds more tightly, left or right?
             while True:
-                if left_op is None or left_op < right_op:
-                    # bind the operand to the right, in cases of equal
+                if left_op is None or operand is None or \
+                        left_op < right_op:
+                    # a prefix operator always waits for its operand,
+                    # otherwise bind the operand to the right, in cases of equal
                     # precedence we left associate 1+2-3 = (1+2)-3
                     if operand is not None:
                         right_op.add_operand(operand)
-- 
2.43.0


From 5b90b9558226ecd1ff11490261044299c83df6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 063/362] fix: formatting cast and isof without a first
 parameter

---
 pyslet/odata2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 72b25cd..efc2db3 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -521,6 +521,9 @@ class BinaryExpression(CommonExpression):
         else:
             op = " %s " % Operator.to_str(self.operator)
         lvalue = self.operands[0]
+        if len(self.operands) == 1:
+            # optional first parameter of cast or isof omitted
+            return uempty.join((op_prefix, to_text(lvalue), op_suffix))
         rvalue = self.operands[1]
         if lvalue.operator is not None and lvalue < self:
             # left expression is weaker than us, use brackets
-- 
2.43.0


From b6e3b33df6784ae1f03862852376e2ebb2dd6f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 064/362] fix: brackets are kept when formatting right operands
 of equal precedence

---
 pyslet/odata2/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index efc2db3..41cc7e8 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -530,8 +530,11 @@ class BinaryExpression(CommonExpression):
             lvalue = "(%s)" % to_text(lvalue)
         else:
             lvalue = to_text(lvalue)
-        if rvalue.operator is not None and rvalue < self:
-            # right expression is weaker than us, use brackets
+        if rvalue.operator is not None and (
+                rvalue < self or
+                (rvalue <= self and self.operator not in Operator.IsSpecial)):
+            # right expression is weaker than us, use brackets.  Operators
+            # of equal precedence associate to the left
             rvalue = "(%s)" % to_text(rvalue)
         else:
             rvalue = to_text(rvalue)
-- 
2.43.0


From a592e787cf5b82dd449ce1931740a3cfb4654231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 065/362] fix: negation of a literal is not formatted as a
 negative literal

---
 pyslet/odata2/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 41cc7e8..eca0da5 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -445,6 +445,11 @@ class UnaryExpression(CommonExpression):
         if rvalue.operator is not None and rvalue < self:
             # right expression is weaker than us, use brackets
             result = "%s(%s)" % (op, to_text(rvalue))
+        elif self.operator == Operator.negate and \
+                isinstance(rvalue, LiteralExpression) and rvalue.value:
+            # don't confuse the negation of a literal, which may promote
+            # its type, with a negative literal
+            result = "%s(%s)" % (op, to_text(rvalue))
         else:
             result = "%s%s" % (op, to_text(rvalue))
         return to_text(result)
-- 
2.43.0


From 30f1d14d65e0a87eeacca28caebafed940a81d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 066/362] fix: negated property names starting with inf or nan

---
 pyslet/odata2/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index eca0da5..aa8166e 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1734,6 +1734,13 @@ class Parser(edm.Parser):
         elif name is None and self.match("'"):
             return self.parse_string_uri_literal()
         elif name is None and self.match_one('-.0123456789'):
+            if self.parse('-'):
+                # could be the negation of a name like infoCount
+                name = self.parse_simple_identifier()
+                self.setpos(savepos)
+                if name is not None and name.lower() not in (
+                        "infd", "inff", "nand", "nanf"):
+                    return None
             # one of the number forms (perhaps)
             num = self.parse_numeric_literal()
             if num is None:
-- 
2.43.0


From 231f490e654c4d6a1476df59140d0fa471a569a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 067/362] fix: named parameters inside brackets and method
 calls

---
 pyslet/odata2/core.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index aa8166e..23e242c 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1368,27 +1368,27 @@ class Parser(edm.Parser):
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.isof,
-                            "isof"),
+                            "isof", params),
                         "isofExpression")
                 elif name == "cast":
                     self.parse_wsp()
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.cast,
-                            "cast"),
+                            "cast", params),
                         "caseExpression")
                 elif name is not None:
                     self.parse_wsp()
                     if self.match("("):
                         method_call = Method.from_str(name)
                         right_op = self.parse_method_call_expression(
-                            method_call)
+                            method_call, params)
                     else:
                         right_op = PropertyExpression(name)
             if right_op is None:
                 if self.parse("("):
                     right_op = self.require_production(
-                        self.parse_common_expression(),
+                        self.parse_common_expression(params),
                         "commonExpression inside parenExpression")
                     self.require_production(
                         self.parse(")"), "closing bracket in parenExpression")
@@ -1468,14 +1468,14 @@ class Parser(edm.Parser):
                     else:
                         left_op = None
 
-    def parse_method_call_expression(self, method_call):
+    def parse_method_call_expression(self, method_call, params=None):
         method = CallExpression(method_call)
         self.require_production(
             self.parse("("), "opening bracket in methodCallExpression")
         while True:
             self.parse_wsp()
             param = self.require_production(
-                self.parse_common_expression(), "methodCall argument")
+                self.parse_common_expression(params), "methodCall argument")
             method.add_operand(param)
             self.parse_wsp()
             if self.parse(","):
@@ -1486,13 +1486,13 @@ class Parser(edm.Parser):
                 raise ValueError("closing bracket in methodCallExpression")
         return method
 
-    def parse_castlike(self, op, name):
+    def parse_castlike(self, op, name, params=None):
         """Parses a cast-like expression, including 'isof'."""
         self.parse_wsp()
         if self.parse("("):
             e = BinaryExpression(op)
             first_param = self.require_production(
-                self.parse_common_expression(), "%s argument" % name)
+                self.parse_common_expression(params), "%s argument" % name)
             e.add_operand(first_param)
             self.parse_wsp()
             if self.parse_one(")"):
@@ -1502,7 +1502,7 @@ class Parser(edm.Parser):
                 self.require_production(self.parse(","), "',' in %s" % name)
                 self.parse_wsp()
                 string_param = self.require_production(
-                    self.parse_common_expression(), "%s argument" % name)
+                    self.parse_common_expression(params), "%s argument" % name)
                 e.add_operand(string_param)
                 self.parse_wsp()
                 self.require_production(self.parse(")"), "')' after %s" % name)
-- 
2.43.0


From 385447fd41262d49958331f181e3ee732d4570cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 068/362] fix: integer div and mod are exact

---
 pyslet/odata2/core.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 23e242c..2be513a 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -656,9 +656,11 @@ class BinaryExpression(CommonExpression):
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
                     # OData doesn't really specify integer division rules so
-                    # we use floating point division and truncate towards zero
-                    result.set_from_value(
-                        int(float(lvalue.value) / float(rvalue.value)))
+                    # we truncate towards zero
+                    value = abs(lvalue.value) // abs(rvalue.value)
+                    if (lvalue.value < 0) != (rvalue.value < 0):
+                        value = -value
+                    result.set_from_value(value)
                 return result
             elif type_code is None:  # null div null
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
@@ -686,10 +688,11 @@ class BinaryExpression(CommonExpression):
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
                     # OData doesn't really specify integer division
-                    # rules so we use floating point division and
-                    # truncate towards zero
-                    result.set_from_value(int(math.fmod(float(lvalue.value),
-                                                        float(rvalue.value))))
+                    # rules so we truncate towards zero
+                    value = abs(lvalue.value) % abs(rvalue.value)
+                    if lvalue.value < 0:
+                        value = -value
+                    result.set_from_value(value)
                 return result
             elif type_code is None:  # null div null
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
-- 
2.43.0


From 0531f7d3f284c2f30e64dc35ef406c819205ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 069/362] fix: decimal division by zero is an evaluation error
 and decimal mod is exact

---
 pyslet/odata2/core.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 2be513a..dcc7b54 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -666,15 +666,13 @@ class BinaryExpression(CommonExpression):
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
             else:
                 raise EvaluationError("Illegal operands for div")
-        except ZeroDivisionError as e:
+        except (ZeroDivisionError, decimal.InvalidOperation) as e:
             raise EvaluationError(str(e))
 
     def evaluate_mod(self, lvalue, rvalue):
         try:
             type_code = self.promote_operands(lvalue, rvalue)
-            if type_code in (
-                    edm.SimpleType.Single, edm.SimpleType.Double,
-                    edm.SimpleType.Decimal):
+            if type_code in (edm.SimpleType.Single, edm.SimpleType.Double):
                 lvalue = lvalue.simple_cast(type_code)
                 rvalue = rvalue.simple_cast(type_code)
                 result = edm.EDMValue.from_type(type_code)
@@ -682,6 +680,15 @@ class BinaryExpression(CommonExpression):
                     result.set_from_value(
                         math.fmod(lvalue.value, rvalue.value))
                 return result
+            elif type_code == edm.SimpleType.Decimal:
+                lvalue = lvalue.simple_cast(type_code)
+                rvalue = rvalue.simple_cast(type_code)
+                result = edm.EDMValue.from_type(type_code)
+                if lvalue and rvalue:
+                    # enough digits for any quotient
+                    result.set_from_value(decimal.Context(prec=64).remainder(
+                        lvalue.value, rvalue.value))
+                return result
             elif type_code in (edm.SimpleType.Int32, edm.SimpleType.Int64):
                 lvalue = lvalue.simple_cast(type_code)
                 rvalue = rvalue.simple_cast(type_code)
@@ -698,7 +705,8 @@ class BinaryExpression(CommonExpression):
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
             else:
                 raise EvaluationError("Illegal operands for mod")
-        except (ZeroDivisionError, ValueError) as e:
+        except (ZeroDivisionError, ValueError,
+                decimal.InvalidOperation) as e:
             raise EvaluationError(str(e))
 
     def evaluate_add(self, lvalue, rvalue):
-- 
2.43.0


From e8f6157f25c7a9898dcea93814fc97038586001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 070/362] fix: comparing a null string or date is false

---
 pyslet/odata2/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index dcc7b54..9c83ce5 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -774,7 +774,9 @@ class BinaryExpression(CommonExpression):
                 edm.SimpleType.String, edm.SimpleType.DateTime,
                 edm.SimpleType.DateTimeOffset, edm.SimpleType.Guid):
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-            result.set_from_value(relation(lvalue.value, rvalue.value))
+            # one of the operands is null => False
+            result.set_from_value(bool(
+                lvalue and rvalue and relation(lvalue.value, rvalue.value)))
             return result
         elif type_code is None:  # e.g., null lt null
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-- 
2.43.0


From 72c943ed957d3119abc879856f5ff931f812b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 071/362] fix: floor and ceiling of infinity and nan

---
 pyslet/odata2/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 9c83ce5..a8fd7eb 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1279,6 +1279,14 @@ class CallExpression(CommonExpression):
             raise EvaluationError(
                 "round() takes 1 argument, %i given" % len(args))
 
+    @staticmethod
+    def _apply_finite(method, value):
+        # infinity and nan are already rounded
+        if math.isinf(value) or math.isnan(value):
+            return value
+        else:
+            return method(value)
+
     def evaluate_floor(self, args):
         if (len(args) == 1):
             try:
@@ -1291,7 +1299,8 @@ class CallExpression(CommonExpression):
                 target = self.promote_param(args[0], edm.SimpleType.Double)
                 result = edm.EDMValue.from_type(edm.SimpleType.Double)
                 if target:
-                    result.set_from_value(math.floor(target.value))
+                    result.set_from_value(
+                        self._apply_finite(math.floor, target.value))
             return result
         else:
             raise EvaluationError(
@@ -1309,7 +1318,8 @@ class CallExpression(CommonExpression):
                 target = self.promote_param(args[0], edm.SimpleType.Double)
                 result = edm.EDMValue.from_type(edm.SimpleType.Double)
                 if target:
-                    result.set_from_value(math.ceil(target.value))
+                    result.set_from_value(
+                        self._apply_finite(math.ceil, target.value))
             return result
         else:
             raise EvaluationError(
-- 
2.43.0


From 273be621b0a61117f254e0433cfbe1ce57739e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 072/362] fix: bracketed unary expressions are complete
 operands

---
 pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index a8fd7eb..979725c 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1370,6 +1370,8 @@ class Parser(edm.Parser):
         right_op = None
         op_stack = []
         while True:
+            # True if right_op is a prefix operator, rather than operand
+            prefix = False
             self.parse_wsp()
             if params is not None and self.parse(':'):
                 pname = self.parse_simple_identifier()
@@ -1386,6 +1388,7 @@ class Parser(edm.Parser):
                 if name == "not":
                     self.require_production(self.parse_wsp(), "WSP after not")
                     right_op = UnaryExpression(Operator.boolNot)
+                    prefix = True
                 elif name == "isof":
                     self.parse_wsp()
                     right_op = self.require_production(
@@ -1417,6 +1420,7 @@ class Parser(edm.Parser):
                         self.parse(")"), "closing bracket in parenExpression")
                 elif self.parse("-"):
                     right_op = UnaryExpression(Operator.negate)
+                    prefix = True
                 elif left_op:
                     # an operator waiting for an operand is an error
                     raise ValueError(
@@ -1429,7 +1433,7 @@ class Parser(edm.Parser):
                     return None
             # if we already have a (unary) operator, skip the search for a
             # binary operator
-            if not isinstance(right_op, UnaryExpression):
+            if not prefix:
                 operand = right_op
                 self.parse_wsp()
                 if self.parse("/"):
-- 
2.43.0


From 25d8920a09a8c67947f785792cc610d28b86713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 073/362] fix: decimal zero is in range whatever its exponent

---
 pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 330bbf1..ce1d358 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1545,7 +1545,7 @@ class DecimalValue(NumericValue):
             # CSDL expects a 29-digit limit to the right of the point
             d = self.value.quantize(decimal.Decimal((0, (1, ), -29)),
                                     context=decimal.Context(prec=60))
-        elif t.exponent + len(t.digits) > 29:
+        elif self.value and t.exponent + len(t.digits) > 29:
             # CSDL expects a 29-digit limit to the left of the point
             raise ValueError(
                 "Value exceeds limits for Decimal: %s" % str(self.value))
@@ -1580,7 +1580,7 @@ class DecimalValue(NumericValue):
             d = decimal.Decimal(new_value)
         else:
             raise TypeError("Can't set Decimal from %s" % str(new_value))
-        if not d.is_finite() or d.adjusted() > 28:
+        if not d.is_finite() or (d and d.adjusted() > 28):
             # not a number or too big for CSDL decimal forms
             raise ValueError("Value exceeds limits for Decimal: %s" % str(d))
         # in the interests of maintaining accuracy we don't limit the
-- 
2.43.0


From 2b4f09f68c2f2f0376d56e335fdfe4c2520b55aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 074/362] fix: negating a complex value is an evaluation error

---
 pyslet/odata2/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 979725c..ee081ac 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -459,6 +459,8 @@ class UnaryExpression(CommonExpression):
         return self.EvalMethod[self.operator](self, rvalue)
 
     def evaluate_negate(self, rvalue):
+        if not isinstance(rvalue, edm.SimpleValue):
+            raise EvaluationError("Illegal operand for negate")
         type_code = rvalue.type_code
         if type_code in (edm.SimpleType.Byte, edm.SimpleType.Int16):
             rvalue = rvalue.simple_cast(edm.SimpleType.Int32)
-- 
2.43.0


From 39e7fa33896954071ac30cb1fa0da464ddd96e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 075/362] fix: the last page of a collection has no skip token

---
 pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index ce1d358..434ba8f 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3386,6 +3386,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         finally:
             self.paging = False
         # no more pages
+        self.nextSkiptoken = None
         if set_next:
             self.top = self.skip = 0
             self.skiptoken = None
-- 
2.43.0


From ad99305d1288aa47b6792bc6773554e474d12ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 076/362] fix: ordering by expressions that may be null

---
 pyslet/odata2/csdl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 434ba8f..0010a8c 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3151,9 +3151,13 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
             if elist is None:
                 elist = list(entity_iterable)
             # we avoid Py3 warnings by doing multiple sorts with a key function
+            def null_first(x):
+                value = self.calculate_order_key(x, rule)
+                return (value is not None, value)
+
             for rule, ruleDir in reversed(self.orderby):
-                elist.sort(key=lambda x: self.calculate_order_key(
-                    x, rule), reverse=True if ruleDir < 0 else False)
+                elist.sort(key=null_first,
+                           reverse=True if ruleDir < 0 else False)
         if elist:
             for e in elist:
                 yield e
-- 
2.43.0


From fea3bb2d5f7038fb4a70d5d7be880b93426caaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 077/362] fix: filtering and ordering by properties that are
 not selected

---
 pyslet/odata2/memds.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 1aad497..17a7d0b 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -460,13 +460,14 @@ class EntityCollection(odata.EntityCollection):
             return result
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        # filter and order all properties, not just the selected ones
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
-                    self.entity_store.generate_entities(self.select))))
+                    self.entity_store.generate_entities())))
 
     def __getitem__(self, key):
-        e = self.entity_store.read_entity(key, self.select)
+        e = self.entity_store.read_entity(key)
         if e is not None and self.check_filter(e):
             e.expand(self.expand, self.select)
             return e
@@ -701,8 +702,8 @@ class NavigationCollection(odata.NavigationCollection):
             yield self.collection[k]
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
                     self.entity_generator())))
 
-- 
2.43.0


From ef611eab03fdc744a56f2dbb03922197319389b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 078/362] fix: the missing stream of an in-memory entity is an
 empty byte string

---
 pyslet/odata2/memds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 17a7d0b..1448100 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -160,7 +160,7 @@ class InMemoryEntityStore(object):
                 stream, sinfo = self.streams[key]
                 return stream, sinfo
             else:
-                return '', odata.StreamInfo(size=0)
+                return b'', odata.StreamInfo(size=0)
 
     def update_entity(self, e, merge=True):
         # e is an EntityTypeInstance, we need to convert it to a tuple
-- 
2.43.0


From d86a77c989fd1432956b5601e9410222445039dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 079/362] fix: random strings for properties of fixed or
 unlimited length

---
 pyslet/odata2/csdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 0010a8c..6b67179 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1948,13 +1948,13 @@ class StringValue(SimpleValue):
         else:
             base = ''
         rbytes = 8
-        if self.p_def:
+        if self.p_def and self.p_def.maxLength is not None:
             # how much of base do
             if rbytes > self.p_def.maxLength:
                 rbytes = self.p_def.maxLength
             if (self.p_def.fixedLength and
                     rbytes + len(base) < self.p_def.maxLength):
-                rbytes = self.maxLength - len(base)
+                rbytes = self.p_def.maxLength - len(base)
             elif len(base) + rbytes > self.p_def.maxLength:
                 # shorten base
                 base = base[:self.p_def.maxLength - rbytes]
-- 
2.43.0


From 4429feb892bf261f8b808971f6d287b0ee37abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 080/362] fix: report the failure to generate a key

---
 pyslet/odata2/memds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 1448100..165ff04 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -442,8 +442,8 @@ class EntityCollection(odata.EntityCollection):
             if key is None:
                 logging.error("Failed to find an unused key in %s "
                               "after 100 attempts", entity.entity_set.name)
-                raise edm.EDMError("Auto-key failure" %
-                                   odata.ODataURI.format_entity_key(entity))
+                raise edm.EDMError(
+                    "Auto-key failure in %s" % entity.entity_set.name)
             # Check constraints
             entity.check_navigation_constraints(from_end)
             self.entity_store.add_entity(entity)
-- 
2.43.0


From 5f230b24a00fdd9840ae70a7bb9daeb32d6f8576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 081/362] fix: memds insert, update and delete that fail leave
 the container unchanged

---
 pyslet/odata2/memds.py | 91 +++++++++++++++++++++++++++++++-----------
 1 file changed, 67 insertions(+), 24 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 165ff04..f3b524d 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -1,6 +1,7 @@
 #! /usr/bin/env python
 """A simple Entity store using a python dictionary"""
 
+import contextlib
 import hashlib
 import threading
 import logging
@@ -95,6 +96,11 @@ class InMemoryEntityStore(object):
             self.data[key] = tuple(value)
             # At this point the entity exists
             e.exists = True
+            self.container.on_rollback(self._undo_add, key, e)
+
+    def _undo_add(self, key, e):
+        del self.data[key]
+        e.exists = False
 
     def count_entities(self):
         with self.container.lock:
@@ -188,6 +194,8 @@ class InMemoryEntityStore(object):
                         v.set_default_value()
                         value[i] = v.value
                 i = i + 1
+            self.container.on_rollback(
+                self.data.__setitem__, key, self.data[key])
             self.data[key] = tuple(value)
 
     def update_entity_stream(self, key, stream, sinfo):
@@ -252,8 +260,12 @@ class InMemoryEntityStore(object):
                 aindex.delete_hook(key)
             for aindex in dict_values(self.reverseAssociations):
                 aindex.rdelete_hook(key)
+            self.container.on_rollback(
+                self.data.__setitem__, key, self.data[key])
             del self.data[key]
             if key in self.streams:
+                self.container.on_rollback(
+                    self.streams.__setitem__, key, self.streams[key])
                 del self.streams[key]
 
     def test_key(self, key):
@@ -331,6 +343,9 @@ class InMemoryAssociationIndex(object):
     def add_link(self, from_key, to_key):
         """Adds a link from *from_key* to *to_key*"""
         with self.container.lock:
+            if to_key not in self.index.get(from_key, ()):
+                self.container.on_rollback(
+                    self.remove_link, from_key, to_key)
             self.index.setdefault(from_key, set()).add(to_key)
             self.reverseIndex.setdefault(to_key, set()).add(from_key)
 
@@ -347,34 +362,26 @@ class InMemoryAssociationIndex(object):
     def remove_link(self, from_key, to_key):
         """Removes a link from *from_key* to *to_key*"""
         with self.container.lock:
+            if to_key in self.index.get(from_key, ()):
+                self.container.on_rollback(self.add_link, from_key, to_key)
             self.index.get(from_key, set()).discard(to_key)
             self.reverseIndex.get(to_key, set()).discard(from_key)
 
     def delete_hook(self, from_key):
         """Called only by :py:meth:`InMemoryEntityStore.delete_entity`"""
-        try:
-            to_keys = self.index[from_key]
-            for to_key in to_keys:
-                from_keys = self.reverseIndex[to_key]
-                from_keys.remove(from_key)
-                if len(from_keys) == 0:
-                    del self.reverseIndex[to_key]
-            del self.index[from_key]
-        except KeyError:
-            pass
+        for to_key in self.get_links_from(from_key):
+            self.remove_link(from_key, to_key)
+            if not self.reverseIndex[to_key]:
+                del self.reverseIndex[to_key]
+        self.index.pop(from_key, None)
 
     def rdelete_hook(self, to_key):
         """Called only by :py:meth:`InMemoryEntityStore.delete_entity`"""
-        try:
-            from_keys = self.reverseIndex[to_key]
-            for from_key in from_keys:
-                to_keys = self.index[from_key]
-                to_keys.remove(to_key)
-                if len(to_keys) == 0:
-                    del self.index[from_key]
-            del self.reverseIndex[to_key]
-        except KeyError:
-            pass
+        for from_key in self.get_links_to(to_key):
+            self.remove_link(from_key, to_key)
+            if not self.index[from_key]:
+                del self.index[from_key]
+        self.reverseIndex.pop(to_key, None)
 
 
 # class WEntityStream(StringIO):
@@ -424,7 +431,7 @@ class EntityCollection(odata.EntityCollection):
         suppress a constraint check (on the assumption that it has
         already been checked) by passing *from_end* directly to
         :py:meth:`Entity.check_navigation_constraints`."""
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             # This is a bit clumsy, but we lock the whole container while we
             # check all constraints and perform any nested deletes
             try:
@@ -476,7 +483,7 @@ class EntityCollection(odata.EntityCollection):
 
     def update_entity(self, entity, merge=True):
         # force an error if we don't have a key
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             self.entity_store.update_entity(entity, merge)
             # now process any bindings
             self.update_bindings(entity)
@@ -486,7 +493,7 @@ class EntityCollection(odata.EntityCollection):
         us. We don't need to bother about deleting links because the
         delete hooks on entity_store do this automatically."""
         # start_deleting_entity and friends require the container lock
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             self._delete_entity(key)
 
     def _delete_entity(self, key):
@@ -680,7 +687,8 @@ class NavigationCollection(odata.NavigationCollection):
     def insert_entity(self, entity):
         """Inserts a new *entity* into the target entity set *and*
         simultaneously creates a link to it from the source entity."""
-        with self.entity_set.open() as baseCollection:
+        with self.entity_set.open() as baseCollection, \
+                self.aindex.container.transaction():
             baseCollection.insert_entity(entity,
                                          from_end=self.from_end.otherEnd)
             self[entity.key()] = entity
@@ -796,6 +804,9 @@ class InMemoryEntityContainer(object):
         """a lock that must be acquired before modifying any entity or
         association in this container"""
         self.lock = threading.RLock()
+        # actions that undo the changes made by the current transaction
+        self._undo = []
+        self._tdepth = 0
         """a mapping from entity set names to
         :py:class:`InMemoryEntityStore` instances"""
         self.entityStorage = {}
@@ -835,3 +846,35 @@ class InMemoryEntityContainer(object):
                         from_storage,
                         to_storage,
                         np.name)
+
+    @contextlib.contextmanager
+    def transaction(self):
+        """Returns a context manager that acquires the container's lock
+
+        If the managed block raises an exception then any changes it
+        made to this container are undone.  May be nested."""
+        with self.lock:
+            mark = len(self._undo)
+            self._tdepth += 1
+            try:
+                yield
+            except BaseException:
+                undo, self._undo[mark:] = self._undo[mark:], []
+                depth, self._tdepth = self._tdepth, 0
+                for method, args in reversed(undo):
+                    method(*args)
+                self._tdepth = depth
+                raise
+            finally:
+                self._tdepth -= 1
+                if not self._tdepth:
+                    del self._undo[:]
+
+    def on_rollback(self, method, *args):
+        """Registers a call that undoes a change
+
+        Does nothing if there is no current transaction.  Not
+        thread-safe, must only be called if you have acquired the
+        container lock."""
+        if self._tdepth:
+            self._undo.append((method, args))
-- 
2.43.0


From 8c3578530c45c154f9c8f126a7d2ee8e485a04a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 082/362] fix: memds navigation collections apply filter and
 expand when looked up by key

---
 pyslet/odata2/memds.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index f3b524d..0cb3e48 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -719,10 +719,8 @@ class NavigationCollection(odata.NavigationCollection):
         result_set = self.lookupMethod(self.key)
         if key in result_set:
             result = self.collection[key]
-            if self.filter is None:
-                if self.check_filter(result):
-                    return result
-            else:
+            if self.check_filter(result):
+                result.expand(self.expand, self.select)
                 return result
         raise KeyError(key)
 
-- 
2.43.0


From 97dfc99700e28966bb5449618e3c6454bc44c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 083/362] fix: memds replace links only to entities that exist
 and are free to be linked

---
 pyslet/odata2/memds.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 0cb3e48..7590b09 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -768,6 +768,13 @@ class NavigationCollection(odata.NavigationCollection):
         if result_set == [key]:
             # nothing to do!
             return
+        # forces a check of entity to ensure it is good
+        self.collection[key] = entity
+        if (self.fromMultiplicity != edm.Multiplicity.Many and
+                key not in result_set and self.rLookupMethod(key)):
+            raise edm.NavigationConstraintError(
+                "Entity %s is already bound through this association" %
+                entity.get_location())
         if self.fromMultiplicity == edm.Multiplicity.One:
             if result_set:
                 # we can't delete these links because we are required
-- 
2.43.0


From 338d85103ca705fb9fd3b4badff37a9a057e3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 084/362] fix: memds links are checked and changed atomically,
 deleted entities cannot be linked

---
 pyslet/odata2/memds.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 7590b09..4c9806e 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -707,7 +707,12 @@ class NavigationCollection(odata.NavigationCollection):
         # we create a collection from the appropriate entity set first
         result_set = self.lookupMethod(self.key)
         for k in result_set:
-            yield self.collection[k]
+            try:
+                e = self.collection[k]
+            except KeyError:
+                # deleted since we looked up the links
+                continue
+            yield e
 
     def itervalues(self):
         return self.expand_entities(
@@ -715,6 +720,14 @@ class NavigationCollection(odata.NavigationCollection):
                 self.filter_entities(
                     self.entity_generator())))
 
+    def _check_source(self):
+        # call with the container lock, our source may have been deleted
+        store = self.aindex.to_store if self.reverse else \
+            self.aindex.from_store
+        if not store.test_key(self.key):
+            raise edm.NonExistentEntity(
+                "Source entity of %s no longer exists" % self.name)
+
     def __getitem__(self, key):
         result_set = self.lookupMethod(self.key)
         if key in result_set:
@@ -725,6 +738,11 @@ class NavigationCollection(odata.NavigationCollection):
         raise KeyError(key)
 
     def __setitem__(self, key, value):
+        with self.aindex.container.transaction():
+            self._set_link(key, value)
+
+    def _set_link(self, key, value):
+        self._check_source()
         result_set = self.lookupMethod(self.key)
         if key in result_set:
             # no operation
@@ -748,6 +766,10 @@ class NavigationCollection(odata.NavigationCollection):
             self.aindex.add_link(self.key, key)
 
     def __delitem__(self, key):
+        with self.aindex.container.transaction():
+            self._delete_link(key)
+
+    def _delete_link(self, key):
         # Before we remove a link we need to know if either entity
         # requires a link, if so, this deletion will result in a
         # constraint violation
@@ -763,6 +785,11 @@ class NavigationCollection(odata.NavigationCollection):
             self.aindex.remove_link(self.key, key)
 
     def replace(self, entity):
+        with self.aindex.container.transaction():
+            self._replace_links(entity)
+
+    def _replace_links(self, entity):
+        self._check_source()
         key = entity.key()
         result_set = list(self.lookupMethod(self.key))
         if result_set == [key]:
-- 
2.43.0


From 912f64540abdf129539d05571febfc569e6280f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 085/362] fix: SQLite: skip without top generated invalid SQL

---
 pyslet/odata2/sqlds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a44af2f..644cd46 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5549,8 +5549,11 @@ class SQLiteEntityContainer(SQLEntityContainer):
 
     def limit_clause(self, skip, top):
         clause = []
-        if top:
+        if top is not None:
             clause.append('LIMIT %i ' % top)
+        elif skip:
+            # OFFSET is not allowed without LIMIT
+            clause.append('LIMIT -1 ')
         if skip:
             clause.append('OFFSET %i ' % skip)
             skip = 0
-- 
2.43.0


From e51990525d52d0771553118f67d21192442e3b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 086/362] fix: SQL expressions keep the grouping of right-hand
 operands

---
 pyslet/odata2/sqlds.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 644cd46..ca6a156 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1484,6 +1484,19 @@ class SQLCollectionBase(core.EntityCollection):
     SQLBinaryExpressionMethod = {}
     SQLCallExpressionMethod = {}
 
+    SQLBinaryOperator = {
+        core.Operator.mul: '*',
+        core.Operator.div: '/',
+        core.Operator.add: '+',
+        core.Operator.sub: '-',
+        core.Operator.lt: '<',
+        core.Operator.gt: '>',
+        core.Operator.le: '<=',
+        core.Operator.ge: '>=',
+        core.Operator.eq: '=',
+        core.Operator.ne: '<>',
+    }
+
     def sql_expression(self, expression, params, context="AND"):
         """Converts an expression into a SQL expression string.
 
@@ -1664,8 +1677,15 @@ class SQLCollectionBase(core.EntityCollection):
         query.append(' ')
         query.append(operator)
         query.append(' ')
-        query.append(
-            self.sql_expression(expression.operands[1], params, operator))
+        right = expression.operands[1]
+        rquery = self.sql_expression(right, params, operator)
+        if (isinstance(right, core.BinaryExpression) and
+                right.operator in self.SQLBinaryOperator and
+                SQLOperatorPrecedence[operator] == SQLOperatorPrecedence[
+                    self.SQLBinaryOperator[right.operator]]):
+            # operators of equal precedence group to the left
+            rquery = "(%s)" % rquery
+        query.append(rquery)
         return self.sql_bracket(''.join(query), context, operator)
 
     def sql_expression_mul(self, expression, params, context):
-- 
2.43.0


From 2bae546938f42c803ce3524b654563594dc3f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 087/362] fix: SQLite string functions: indexof and substring
 failed, others ignored case and treated %/_ as wildcards

---
 pyslet/odata2/sqlds.py | 69 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index ca6a156..66ca25c 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1868,7 +1868,7 @@ class SQLCollectionBase(core.EntityCollection):
         query.append(self.sql_expression(expression.operands[0], params, ','))
         query.append(" FROM ")
         query.append(self.sql_expression(expression.operands[1], params, ','))
-        if len(expression.operands > 2):
+        if len(expression.operands) > 2:
             query.append(" FOR ")
             query.append(
                 self.sql_expression(expression.operands[2], params, ','))
@@ -5598,6 +5598,73 @@ class SQLiteEntityCollectionBase(SQLCollectionBase):
         query.append(")")
         return ''.join(query)  # don't bother with brackets!
 
+    def sql_expression_indexof(self, expression, params, context):
+        """Converts the indexof method
+
+        maps to instr(op[0],op[1]) - 1"""
+        query = ["instr("]
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(",")
+        query.append(self.sql_expression(expression.operands[1], params, ','))
+        query.append(") - 1")
+        # we may be the right-hand operand of another expression
+        return "(%s)" % ''.join(query)
+
+    def sql_expression_substring(self, expression, params, context):
+        """Converts the substring method
+
+        maps to substr(op[0],op[1]+1[,op[2]])"""
+        query = ["substr("]
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(",")
+        query.append(self.sql_expression(expression.operands[1], params, '+'))
+        query.append(" + 1")
+        if len(expression.operands) > 2:
+            query.append(",")
+            query.append(
+                self.sql_expression(expression.operands[2], params, ','))
+        query.append(")")
+        return ''.join(query)  # don't bother with brackets!
+
+    def sql_expression_startswith(self, expression, params, context):
+        """Converts the startswith function
+
+        maps to "instr(op[0],op[1]) = 1", in SQLite LIKE is not case
+        sensitive and treats some characters as wildcards."""
+        query = ["instr("]
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(",")
+        query.append(self.sql_expression(expression.operands[1], params, ','))
+        query.append(") = 1")
+        return self.sql_bracket(''.join(query), context, '=')
+
+    def sql_expression_endswith(self, expression, params, context):
+        """Converts the endswith function
+
+        maps to substr(op[0],length(op[0])-length(op[1])+1) = op[1]"""
+        query = ["substr("]
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(",length(")
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(") - length(")
+        query.append(self.sql_expression(expression.operands[1], params, ','))
+        query.append(") + 1) = ")
+        query.append(self.sql_expression(expression.operands[1], params, '*'))
+        return self.sql_bracket(''.join(query), context, '=')
+
+    def sql_expression_substringof(self, expression, params, context):
+        """Converts the substringof function
+
+        maps to "instr(op[1],op[0]) > 0", see
+        :meth:`sql_expression_startswith`"""
+        # parameters must be added in the order they appear in the query
+        query = ["instr("]
+        query.append(self.sql_expression(expression.operands[1], params, ','))
+        query.append(",")
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(") > 0")
+        return self.sql_bracket(''.join(query), context, '=')
+
     def sql_expression_year(self, expression, params, context):
         """Converts the year method
 
-- 
2.43.0


From 1f856a45a038efe9dd7c625fc6ad7a4e623ce1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 088/362] fix: SQL filters that compare with null never matched

---
 pyslet/odata2/sqlds.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 66ca25c..2c58270 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1760,8 +1760,25 @@ class SQLCollectionBase(core.EntityCollection):
         """Converts the isof expression: no default implementation"""
         raise NotImplementedError
 
+    def sql_expression_null_test(self, expression, params, context, test):
+        """A utility method for converting comparisons with null
+
+        Returns None if neither operand of the expression is null."""
+        for i in (0, 1):
+            operand = expression.operands[i]
+            if (isinstance(operand, core.LiteralExpression) and
+                    not operand.value):
+                query = "%s %s" % (self.sql_expression(
+                    expression.operands[1 - i], params, '*'), test)
+                return self.sql_bracket(query, context, '=')
+        return None
+
     def sql_expression_eq(self, expression, params, context):
-        """Converts the eq expression: maps to SQL "=" """
+        """Converts the eq expression: maps to SQL "=" or "IS NULL" """
+        query = self.sql_expression_null_test(
+            expression, params, context, "IS NULL")
+        if query is not None:
+            return query
         return self.sql_expression_generic_binary(
             expression,
             params,
@@ -1769,7 +1786,11 @@ class SQLCollectionBase(core.EntityCollection):
             '=')
 
     def sql_expression_ne(self, expression, params, context):
-        """Converts the ne expression: maps to SQL "<>" """
+        """Converts the ne expression: maps to SQL "<>" or "IS NOT NULL" """
+        query = self.sql_expression_null_test(
+            expression, params, context, "IS NOT NULL")
+        if query is not None:
+            return query
         return self.sql_expression_generic_binary(
             expression,
             params,
-- 
2.43.0


From 40f31563656f5ff26e22f05738e544396d03f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 089/362] fix: SQL paging with skip tokens skipped entities
 when ordering by null values

---
 pyslet/odata2/sqlds.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 2c58270..c74bdd6 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1160,16 +1160,30 @@ class SQLCollectionBase(core.EntityCollection):
                 oname, dir = self.orderNames[i]
             v = self.skiptoken[i]
             op = ">" if dir > 0 else "<"
-            if oname is None:
+            if not v and dir < 0:
+                # null values come last, nothing follows them
+                o_expression = None
+            elif oname is None:
                 o_expression = self.sql_expression(expression, params, op)
             else:
                 o_expression = oname
-            skip_expression.append(
-                "(%s %s %s" %
-                (o_expression,
-                 op,
-                 params.add_param(
-                     self.container.prepare_sql_value(v))))
+            if v:
+                skip_expression.append(
+                    "(%s %s %s" %
+                    (o_expression,
+                     op,
+                     params.add_param(
+                         self.container.prepare_sql_value(v))))
+                if dir < 0 and oname is None:
+                    # null values come after all others
+                    o_expression = self.sql_expression(
+                        expression, params, '=')
+                    skip_expression.append(" OR %s IS NULL" % o_expression)
+            elif dir > 0:
+                # null values come before all others
+                skip_expression.append("(%s IS NOT NULL" % o_expression)
+            else:
+                skip_expression.append("(1 = 0")
             ket += 1
             i += 1
             if i < len(self.orderNames):
@@ -1177,10 +1191,14 @@ class SQLCollectionBase(core.EntityCollection):
                 if oname is None:
                     # remake the expression
                     o_expression = self.sql_expression(expression, params, '=')
-                skip_expression.append(
-                    " OR (%s = %s AND " %
-                    (o_expression, params.add_param(
-                        self.container.prepare_sql_value(v))))
+                if v:
+                    skip_expression.append(
+                        " OR (%s = %s AND " %
+                        (o_expression, params.add_param(
+                            self.container.prepare_sql_value(v))))
+                else:
+                    skip_expression.append(" OR (%s IS NULL AND " %
+                                           o_expression)
                 ket += 1
                 continue
             else:
-- 
2.43.0


From c4aa5ac9d5f5e99040c7ef2f60277b16d826c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 090/362] fix: SQL paging returned a skip token after all the
 requested entities

---
 pyslet/odata2/sqlds.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index c74bdd6..857d1f9 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -649,6 +649,16 @@ class SQLCollectionBase(core.EntityCollection):
                     self.container.read_sql_value(value, new_value)
                 entity.exists = True
                 yield entity
+                if top is not None:
+                    top = top - 1
+                    if top < 1:
+                        # all the requested entities were returned
+                        if set_next:
+                            if self.skip is not None:
+                                self.skip = self.skip + self.top
+                            else:
+                                self.skip = self.top
+                        break
                 if topmax is not None:
                     topmax = topmax - 1
                     if topmax < 1:
@@ -675,15 +685,6 @@ class SQLCollectionBase(core.EntityCollection):
                             self.skiptoken = self.nextSkiptoken
                             self.skip = 0
                         break
-                if top is not None:
-                    top = top - 1
-                    if top < 1:
-                        if set_next:
-                            if self.skip is not None:
-                                self.skip = self.skip + self.top
-                            else:
-                                self.skip = self.top
-                        break
                 entity = None
             # we haven't changed the database, but we don't want to
             # leave the connection idle in transaction
-- 
2.43.0


From 7b49d13b58fede7f86772915eb5c5dd44f18ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 091/362] fix: SQL paging with long skip tokens failed or lost
 its place

---
 pyslet/odata2/sqlds.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 857d1f9..e511ba8 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -569,7 +569,7 @@ class SQLCollectionBase(core.EntityCollection):
                     order_len + len(self.entity_set.keys) + 1):
                 # the last value must be an integer we add to skip
                 if isinstance(self.skiptoken[-1], edm.Int32Value):
-                    self.skip += self.skiptoken[-1].value
+                    self.skip = (self.skip or 0) + self.skiptoken[-1].value
                     self.skiptoken = self.skiptoken[:-1]
                 else:
                     raise core.InvalidSystemQueryOption(
@@ -634,7 +634,7 @@ class SQLCollectionBase(core.EntityCollection):
                     # no more pages
                     if set_next:
                         self.top = self.skip = 0
-                        self.skipToken = None
+                        self.skiptoken = None
                     break
                 if skip:
                     skip = skip - 1
@@ -674,16 +674,19 @@ class SQLCollectionBase(core.EntityCollection):
                                                     edm.BinaryValue)):
                                 tokenlen += len(v.value)
                         # a really large skiptoken is no use to anyone
-                        if tokenlen > 512:
+                        next_skip = 0
+                        if tokenlen > 512 and self.skiptoken is not None:
                             # ditch this one, copy the previous one and add a
                             # skip
+                            next_skip = (self.skip or 0) + self.topmax
                             self.nextSkiptoken = list(self.skiptoken)
                             v = edm.Int32Value()
-                            v.set_from_value(self.topmax)
+                            v.set_from_value(next_skip)
                             self.nextSkiptoken.append(v)
                         if set_next:
-                            self.skiptoken = self.nextSkiptoken
-                            self.skip = 0
+                            if not next_skip:
+                                self.skiptoken = self.nextSkiptoken
+                            self.skip = next_skip
                         break
                 entity = None
             # we haven't changed the database, but we don't want to
-- 
2.43.0


From 1f95fadd763bd25599c01668c0830bc09fcac59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 092/362] fix: SQL paging failed when a page ended with a null
 order value

---
 pyslet/odata2/sqlds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index e511ba8..bbe4b20 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5280,6 +5280,8 @@ class SQLEntityContainer(object):
 
         You may need to override this method to identify the appropriate
         value type."""
+        if sql_value is None:
+            return edm.EDMValue.from_type(None)
         return edm.EDMValue.from_value(sql_value)
 
     def prepare_sql_literal(self, value):
-- 
2.43.0


From fb19a6633b6ad0244aebc5f38309fe1259d09c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 093/362] fix: SQL: reading the missing stream of a media link
 entry failed

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index bbe4b20..66fa614 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -788,7 +788,7 @@ class SQLCollectionBase(core.EntityCollection):
         else:
             estream = None
             sinfo.size = 0
-            sinfo.md5 = hashlib.md5('').digest()
+            sinfo.md5 = hashlib.md5(b'').digest()
             self.close()
             return sinfo, []
 
-- 
2.43.0


From 10643c9c12cd5a69313a3ef92c9539d3dcdc82f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:57 +0000
Subject: [PATCH 094/362] fix: SQL stream creation and update did not commit
 the change to the entity

---
 pyslet/odata2/sqlds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 66fa614..8caccf7 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -865,6 +865,7 @@ class SQLCollectionBase(core.EntityCollection):
             query = ''.join(query)
             logging.info("%s; %s", query, to_text(params.params))
             transaction.execute(query, params)
+            transaction.commit()
         except Exception as e:
             # we allow the stream store to re-use the same database but
             # this means we can't transact on both at once (from the
@@ -2141,6 +2142,7 @@ class SQLEntityCollection(SQLCollectionBase):
             query = ''.join(query)
             logging.info("%s; %s", query, to_text(params.params))
             transaction.execute(query, params)
+            transaction.commit()
         except Exception as e:
             # we allow the stream store to re-use the same database but
             # this means we can't transact on both at once (from the
-- 
2.43.0


From d3ed445584b9ba3c290307ba0670e5c8a1923e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:57 +0000
Subject: [PATCH 095/362] fix: SQL new_stream reports auto-key failure with the
 documented error

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 8caccf7..5c04777 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2124,7 +2124,7 @@ class SQLEntityCollection(SQLCollectionBase):
                 # give up - we can't insert anything
                 logging.error("Failed to find an unused key in %s "
                               "after 100 attempts", e.entity_set.name)
-                raise edm.SQLError("Auto-key failure")
+                raise SQLError("Auto-key failure")
             # finally, store the stream value for the entity
             query = ['UPDATE ', self.table_name, ' SET ']
             params = self.container.ParamsClass()
-- 
2.43.0


From 82486e377eb380ab2668e10eb5e031bee3ea775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 096/362] fix: SQL operations that read other entities part way
 through committed a partial change

---
 pyslet/odata2/sqlds.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 5c04777..12443f9 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -220,7 +220,7 @@ def retry_decorator(tmethod):
     """Decorates a transaction method with retry handling"""
 
     def retry(self, *args, **kwargs):
-        if self.query_count:
+        if self.query_count or self.is_nested():
             return tmethod(self, *args, **kwargs)
         else:
             strike = 0
@@ -289,6 +289,15 @@ class SQLTransaction(object):
         self.no_commit = 0      #: used to manage nested transactions
         self.query_count = 0    #: records the number of successful commands
 
+    def is_nested(self):
+        """Returns True if a different transaction object has made changes
+
+        This happens when a method that is part way through making
+        changes to the database uses another collection object (on the
+        same connection) to read or make further changes."""
+        return self.connection.writer is not None and \
+            self.connection.writer is not self
+
     @retry_decorator
     def begin(self):
         """Begins a transaction
@@ -310,6 +319,9 @@ class SQLTransaction(object):
         params
                 A :py:class:`SQLParams` object containing any
                 parameterized values."""
+        if self.connection.writer is None and \
+                not sqlcmd.lstrip().upper().startswith("SELECT"):
+            self.connection.writer = self
         self.cursor.execute(sqlcmd,
                             params.params if params is not None else None)
         self.query_count += 1
@@ -318,9 +330,10 @@ class SQLTransaction(object):
         """Ends this transaction with a commit
 
         Nested transactions do nothing."""
-        if self.no_commit:
+        if self.no_commit or self.is_nested():
             return
         self.connection.dbc.commit()
+        self.connection.writer = None
 
     def rollback(self, err=None, swallow=False):
         """Calls the underlying database connection rollback method.
@@ -342,7 +355,8 @@ class SQLTransaction(object):
         swallow
             A flag (defaults to False) indicating that *err* should be
             swallowed, rather than re-raised."""
-        if not self.no_commit:
+        if not self.no_commit and not self.is_nested():
+            self.connection.writer = None
             try:
                 self.connection.dbc.rollback()
                 if err is not None:
@@ -379,6 +393,8 @@ class SQLTransaction(object):
         if self.no_commit:
             self.no_commit = self.no_commit - 1
         elif self.cursor is not None:
+            if self.connection.writer is self:
+                self.connection.writer = None
             self.cursor.close()
             self.cursor = None
             self.query_count = 0
@@ -4126,6 +4142,8 @@ class SQLConnection(object):
         self.locked = 0
         self.last_seen = 0
         self.dbc = None
+        #: the transaction that is making changes, if any
+        self.writer = None
 
 
 class SQLEntityContainer(object):
-- 
2.43.0


From 38755eeaf6d6effd27bc4758c49d12441d237bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 097/362] fix: in-memory SQLite databases did not check foreign
 keys

---
 pyslet/odata2/sqlds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 12443f9..ede2db7 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5451,6 +5451,7 @@ class SQLiteEntityContainer(SQLEntityContainer):
             kwargs['max_connections'] = 1
             self.sqlite_memdbc = sqlite3.connect(
                 ":memory:", check_same_thread=False, **sqlite_options)
+            self.sqlite_memdbc.execute("PRAGMA foreign_keys = ON")
         else:
             self.sqlite_memdbc = None
         super(SQLiteEntityContainer, self).__init__(dbapi=sqlite3, **kwargs)
-- 
2.43.0


From 4f09abed8cee292ae7b00e5ec6548a99a384fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 098/362] fix: SQL update with deep inserts failed or was not a
 single transaction

---
 pyslet/odata2/sqlds.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index ede2db7..0a57d66 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2567,7 +2567,9 @@ class SQLEntityCollection(SQLCollectionBase):
                         # add this entity to it's base collection
                         with target_set.open() as targetCollection:
                             targetCollection.insert_entity_sql(
-                                target_entity, link_end.otherEnd, transaction)
+                                target_entity,
+                                link_end.otherEnd,
+                                transaction=transaction)
                 # Finally, we have a target entity, add the foreign key to
                 # fk_values
                 for key_name in target_set.keys:
@@ -2703,7 +2705,9 @@ class SQLEntityCollection(SQLCollectionBase):
                                 else:
                                     # foreign keys are in an auxiliary table
                                     targetCollection.insert_entity_sql(
-                                        binding, link_end.otherEnd)
+                                        binding,
+                                        link_end.otherEnd,
+                                        transaction=transaction)
                                     if dv.isCollection:
                                         navCollection.insert_link(
                                             binding, transaction)
-- 
2.43.0


From f742d37d25caf131c513ea20877fd4439dfa773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 099/362] fix: SQL: deleting a missing link raised TypeError

---
 pyslet/odata2/sqlds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 0a57d66..7dba712 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -3005,9 +3005,9 @@ class SQLEntityCollection(SQLCollectionBase):
                 # no rows matched this constraint, entity either doesn't exist
                 # or wasn't linked to the target
                 raise KeyError(
-                    "Entity %s does not exist or is not linked to %s" % str(
-                        entity.get_location(),
-                        target_entity.get_location))
+                    "Entity %s does not exist or is not linked to %s" % (
+                        str(entity.get_location()),
+                        str(target_entity.get_location())))
             transaction.commit()
         except Exception as e:
             transaction.rollback(e)
-- 
2.43.0


From 2ad1fb2e2ca1818c3c9fdd88b8cd4670b9e5aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 100/362] fix: SQL: more than one entity could be linked to an
 end with multiplicity 0..1

---
 pyslet/odata2/sqlds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 7dba712..e590fc1 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -3143,6 +3143,9 @@ class SQLEntityCollection(SQLCollectionBase):
                     fk_names), self.container.mangled_names[
                     (target_set.name,)], ', '.join(
                     k_names)))
+            if unique:
+                # at most one of our entities can be linked to each target
+                constraints.append("UNIQUE (%s)" % ', '.join(fk_names))
         cols = cols + constraints
         query.append(", ".join(cols))
         query.append(')')
-- 
2.43.0


From 575a5e92e588b53e7c2d06f4d418dfdfc5f9ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 101/362] fix: SQL: links of 0..1 to 0..1 associations could
 not be removed or replaced

---
 pyslet/odata2/sqlds.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index e590fc1..0e68443 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -3856,7 +3856,7 @@ class SQLAssociationCollection(SQLNavigationCollection):
             transaction.close()
 
     def replace_link(self, entity, transaction=None):
-        if self.from_entity[self.from_nav_name].isCollection:
+        if self.toMultiplicity != edm.Multiplicity.One:
             if transaction is None:
                 transaction = SQLTransaction(self.container, self.connection)
             try:
@@ -3876,8 +3876,8 @@ class SQLAssociationCollection(SQLNavigationCollection):
             finally:
                 transaction.close()
         else:
-            # We don't support symmetric associations of the 0..1 - 0..1
-            # variety so this must be a 1..1 relationship.
+            # We only support symmetric associations so this must be a
+            # 1..1 relationship.
             raise edm.NavigationError(
                 "replace not allowed for 1-1 relationship "
                 "(implicit delete not supported)")
@@ -3886,7 +3886,7 @@ class SQLAssociationCollection(SQLNavigationCollection):
         #   Before we remove a link we need to know if this is 1-1
         #   relationship, if so, this deletion will result in a
         #   constraint violation.
-        if self.uniqueKeys:
+        if self.toMultiplicity == edm.Multiplicity.One:
             raise edm.NavigationError("Can't remove a required link")
         with self.entity_set.open() as targetCollection:
             entity = targetCollection.new_entity()
-- 
2.43.0


From 0194661e1818a527ebd15e39b4edc37f5db2fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 102/362] fix: SQL: ambiguous column names when filtering the
 children of an entity by their parent

---
 pyslet/odata2/sqlds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 0e68443..abe7139 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -3462,7 +3462,9 @@ class SQLReverseKeyCollection(SQLNavigationCollection):
         """Adds the constraint to entities linked from *from_entity* only."""
         where = []
         for k, v in dict_items(self.from_entity.key_dict()):
-            where.append("%s=%s" % (
+            # qualified as we may join this table to itself
+            where.append("%s.%s=%s" % (
+                self.table_name,
                 self.container.mangled_names[
                     (self.entity_set.name, self.aset_name, k)],
                 params.add_param(self.container.prepare_sql_value(v))))
-- 
2.43.0


From 2c80d5dd127cc93c1fec9b695f0684bb378589a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 103/362] fix: SQL connections were unusable, or never
 released, after failing to reconnect

---
 pyslet/odata2/sqlds.py | 57 +++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index abe7139..8e33d3c 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -220,12 +220,18 @@ def retry_decorator(tmethod):
     """Decorates a transaction method with retry handling"""
 
     def retry(self, *args, **kwargs):
-        if self.query_count or self.is_nested():
+        if self.query_count or self.is_nested() or self.is_shared():
             return tmethod(self, *args, **kwargs)
         else:
             strike = 0
+            lost_cursor = False
             while True:
                 try:
+                    if self.connection.dbc is None:
+                        self.connection.dbc = self.container.open()
+                    if lost_cursor:
+                        self.open_cursor()
+                        lost_cursor = False
                     result = tmethod(self, *args, **kwargs)
                     break
                 except self.api.OperationalError as err:
@@ -235,11 +241,13 @@ def retry_decorator(tmethod):
                             "Thread[%i] retrying database connection "
                             "after error: %s", self.connection.thread_id,
                             str(err))
-                        self.container.close_connection(self.connection.dbc)
-                        self.connection.dbc = self.container.open()
                         if self.cursor is not None:
-                            # create a new cursor
-                            self.cursor = self.connection.dbc.cursor()
+                            # this cursor can't outlive the connection
+                            self.close_cursor()
+                            lost_cursor = True
+                        dbc, self.connection.dbc = self.connection.dbc, None
+                        if dbc is not None:
+                            self.container.close_connection(dbc)
                     else:
                         raise
         return result
@@ -298,6 +306,23 @@ class SQLTransaction(object):
         return self.connection.writer is not None and \
             self.connection.writer is not self
 
+    def is_shared(self):
+        """Returns True if other transactions are using the connection
+
+        The cursors of these transactions would be lost if we replaced
+        the connection."""
+        return self.connection.ncursors > (
+            0 if self.cursor is None else 1)
+
+    def open_cursor(self):
+        self.cursor = self.connection.dbc.cursor()
+        self.connection.ncursors += 1
+
+    def close_cursor(self):
+        cursor, self.cursor = self.cursor, None
+        self.connection.ncursors -= 1
+        cursor.close()
+
     @retry_decorator
     def begin(self):
         """Begins a transaction
@@ -305,7 +330,7 @@ class SQLTransaction(object):
         If a transaction is already in progress a nested transaction is
         started which has no affect on the database connection itself."""
         if self.cursor is None:
-            self.cursor = self.connection.dbc.cursor()
+            self.open_cursor()
         else:
             self.no_commit += 1
 
@@ -358,7 +383,8 @@ class SQLTransaction(object):
         if not self.no_commit and not self.is_nested():
             self.connection.writer = None
             try:
-                self.connection.dbc.rollback()
+                if self.connection.dbc is not None:
+                    self.connection.dbc.rollback()
                 if err is not None:
                     logging.info(
                         "rollback invoked for transaction following error %s",
@@ -367,10 +393,9 @@ class SQLTransaction(object):
                 if err is not None:
                     if self.query_count:
                         logging.error(
-                            "Data Integrity Error on TABLE %s: rollback "
+                            "Data Integrity Error: rollback "
                             "invoked on a connection that does not "
                             "support transactions after error %s",
-                            self.table_name,
                             str(err))
                     else:
                         logging.info(
@@ -395,9 +420,8 @@ class SQLTransaction(object):
         elif self.cursor is not None:
             if self.connection.writer is self:
                 self.connection.writer = None
-            self.cursor.close()
-            self.cursor = None
             self.query_count = 0
+            self.close_cursor()
 
 
 class SQLCollectionBase(core.EntityCollection):
@@ -4153,6 +4177,8 @@ class SQLConnection(object):
         self.dbc = None
         #: the transaction that is making changes, if any
         self.writer = None
+        #: the number of transactions that have an open cursor
+        self.ncursors = 0
 
 
 class SQLEntityContainer(object):
@@ -4790,7 +4816,14 @@ class SQLEntityContainer(object):
                 self.close_connection(cpool_item.dbc)
                 cpool_item.dbc = None
             if cpool_item.dbc is None:
-                cpool_item.dbc = self.open()
+                try:
+                    cpool_item.dbc = self.open()
+                except Exception as e:
+                    # don't leave the pool item locked
+                    self.release_connection(cpool_item)
+                    if isinstance(e, self.dbapi.Error):
+                        raise SQLError(str(e))
+                    raise
             return cpool_item
         # we are defeated, no database connection for the caller
         # release lock on the module as there is no connection to release
-- 
2.43.0


From 174b2a7ec4e7cf7aaa2e444ab429d14885cbe668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 104/362] fix: SQL entities were still marked as existing after
 their insertion was rolled back

---
 pyslet/odata2/sqlds.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 8e33d3c..4270399 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -296,6 +296,8 @@ class SQLTransaction(object):
         self.cursor = None
         self.no_commit = 0      #: used to manage nested transactions
         self.query_count = 0    #: records the number of successful commands
+        #: entities inserted by this transaction
+        self.inserted = []
 
     def is_nested(self):
         """Returns True if a different transaction object has made changes
@@ -382,6 +384,8 @@ class SQLTransaction(object):
             swallowed, rather than re-raised."""
         if not self.no_commit and not self.is_nested():
             self.connection.writer = None
+            while self.inserted:
+                self.inserted.pop().exists = False
             try:
                 if self.connection.dbc is not None:
                     self.connection.dbc.rollback()
@@ -421,6 +425,7 @@ class SQLTransaction(object):
             if self.connection.writer is self:
                 self.connection.writer = None
             self.query_count = 0
+            self.inserted = []
             self.close_cursor()
 
 
@@ -2389,6 +2394,7 @@ class SQLEntityCollection(SQLCollectionBase):
                 # refresh these fields in the entity
                 self.get_auto(entity, auto_fields, transaction)
             entity.exists = True
+            transaction.inserted.append(entity)
             # Step 3
             for k, dv in entity.navigation_items():
                 link_end = self.entity_set.navigation[k]
-- 
2.43.0


From 4b7db4f4da13bd585d7bbae3df5d6f60fa29b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 105/362] fix: SQL entities lost their bindings when the insert
 or update was rolled back

---
 pyslet/odata2/sqlds.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 4270399..9b86b61 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -298,6 +298,14 @@ class SQLTransaction(object):
         self.query_count = 0    #: records the number of successful commands
         #: entities inserted by this transaction
         self.inserted = []
+        #: the bindings before they were processed by this transaction
+        self.bindings = []
+
+    def save_bindings(self, entity):
+        """Saves the bindings of *entity*, restored on rollback"""
+        for k, dv in entity.navigation_items():
+            if dv.bindings:
+                self.bindings.append((dv, list(dv.bindings)))
 
     def is_nested(self):
         """Returns True if a different transaction object has made changes
@@ -386,6 +394,9 @@ class SQLTransaction(object):
             self.connection.writer = None
             while self.inserted:
                 self.inserted.pop().exists = False
+            while self.bindings:
+                dv, bindings = self.bindings.pop()
+                dv.bindings = bindings
             try:
                 if self.connection.dbc is not None:
                     self.connection.dbc.rollback()
@@ -426,6 +437,7 @@ class SQLTransaction(object):
                 self.connection.writer = None
             self.query_count = 0
             self.inserted = []
+            self.bindings = []
             self.close_cursor()
 
 
@@ -2289,6 +2301,7 @@ class SQLEntityCollection(SQLCollectionBase):
         fk_mapping = self.container.fk_table[self.entity_set.name]
         try:
             transaction.begin()
+            transaction.save_bindings(entity)
             nav_done = set()
             for link_end, nav_name in dict_items(self.entity_set.linkEnds):
                 if nav_name:
@@ -2565,6 +2578,7 @@ class SQLEntityCollection(SQLCollectionBase):
         transaction = SQLTransaction(self.container, self.connection)
         try:
             transaction.begin()
+            transaction.save_bindings(entity)
             nav_done = set()
             for k, dv in entity.navigation_items():
                 link_end = self.entity_set.navigation[k]
-- 
2.43.0


From 383b8cc8ac955efdb2b74c48c4d9502277c71546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 106/362] fix: SQL connection pool lost capacity when threads
 died without releasing connections

---
 pyslet/odata2/sqlds.py | 57 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 9b86b61..969b8fb 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4181,6 +4181,32 @@ class DummyLock(object):
         pass
 
 
+class ModuleLock(object):
+
+    """A re-entrant lock that can be released by a different thread
+
+    The lock must only be used while holding some other lock, it can't
+    block.  We use it in place of RLock so that the lock can be recovered
+    from threads that terminate without releasing it."""
+
+    def __init__(self):
+        self.owner = None
+        self.count = 0
+
+    def acquire(self, blocking=None):
+        thread = threading.current_thread()
+        if self.owner is not None and self.owner is not thread:
+            return False
+        self.owner = thread
+        self.count += 1
+        return True
+
+    def release(self):
+        self.count -= 1
+        if not self.count:
+            self.owner = None
+
+
 class SQLConnection(object):
 
     """An object used to wrap the connection.
@@ -4283,7 +4309,7 @@ class SQLEntityContainer(object):
         if self.dbapi.threadsafety == 0:
             # we can't even share the module, so just use one connection will
             # do
-            self.module_lock = threading.RLock()
+            self.module_lock = ModuleLock()
             self.clocker = DummyLock
             self.cpool_max = 1
         else:
@@ -4763,6 +4789,7 @@ class SQLEntityContainer(object):
         now = start = time.time()
         cpool_item = None
         close_flag = False
+        close_dbc = None
         with self.cpool_lock:
             if self.closing.is_set():
                 # don't open connections when we are trying to close them
@@ -4777,6 +4804,10 @@ class SQLEntityContainer(object):
                     return None
             # we have the module lock
             cpool_item = self.cpool_locked.get(thread_id, None)
+            if cpool_item and cpool_item.thread is not thread:
+                # left behind by a dead thread with the same thread_id
+                close_dbc = self._reclaim(cpool_item)
+                cpool_item = None
             if cpool_item:
                 # our thread_id is in the locked table
                 cpool_item.locked += 1
@@ -4831,6 +4862,8 @@ class SQLEntityContainer(object):
                 cpool_item.thread_id = thread_id
                 cpool_item.last_seen = time.time()
                 self.cpool_locked[thread_id] = cpool_item
+        if close_dbc is not None:
+            self.close_connection(close_dbc)
         if cpool_item:
             if close_flag:
                 self.close_connection(cpool_item.dbc)
@@ -4850,6 +4883,22 @@ class SQLEntityContainer(object):
         self.module_lock.release()
         return None
 
+    def _reclaim(self, cpool_item):
+        """Removes a locked item from the pool when its thread has died
+
+        Must be called with the cpool_lock.  Returns the connection,
+        which should be closed."""
+        logging.error(
+            "Thread[%i] failed to release database connection "
+            "before terminating", cpool_item.thread_id)
+        del self.cpool_locked[cpool_item.thread_id]
+        self.cpool_size -= 1
+        while cpool_item.locked:
+            self.module_lock.release()
+            cpool_item.locked -= 1
+        self.cpool_lock.notify_all()
+        return cpool_item.dbc
+
     def release_connection(self, release_item):
         thread_id = threading.current_thread().ident
         close_flag = False
@@ -4955,11 +5004,7 @@ class SQLEntityContainer(object):
             locked_list = list(dict_values(self.cpool_locked))
             for cpool_item in locked_list:
                 if not cpool_item.thread.is_alive():
-                    logging.error(
-                        "Thread[%i] failed to release database connection "
-                        "before terminating", cpool_item.thread_id)
-                    del self.cpool_locked[cpool_item.thread_id]
-                    to_close.append(cpool_item.dbc)
+                    to_close.append(self._reclaim(cpool_item))
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
                 if not cpool_item.thread.is_alive():
-- 
2.43.0


From 6860117f608e4eb2aed726b2254df660a304e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 107/362] fix: closing a SQL container left threads waiting for
 connections

---
 pyslet/odata2/sqlds.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 969b8fb..159611a 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4794,20 +4794,22 @@ class SQLEntityContainer(object):
             if self.closing.is_set():
                 # don't open connections when we are trying to close them
                 return None
+            cpool_item = self.cpool_locked.get(thread_id, None)
+            if cpool_item and cpool_item.thread is not thread:
+                # left behind by a dead thread with the same thread_id
+                close_dbc = self._reclaim(cpool_item)
             while not self.module_lock.acquire(False):
-                self.cpool_lock.wait(timeout)
                 now = time.time()
                 if timeout is not None and now > start + timeout:
                     logging.warning(
                         "Thread[%i] timed out waiting for the the database "
                         "module lock", thread_id)
                     return None
+                self.cpool_lock.wait(timeout)
+                if self.closing.is_set():
+                    return None
             # we have the module lock
             cpool_item = self.cpool_locked.get(thread_id, None)
-            if cpool_item and cpool_item.thread is not thread:
-                # left behind by a dead thread with the same thread_id
-                close_dbc = self._reclaim(cpool_item)
-                cpool_item = None
             if cpool_item:
                 # our thread_id is in the locked table
                 cpool_item.locked += 1
@@ -4853,6 +4855,8 @@ class SQLEntityContainer(object):
                         "Thread[%i] forced to wait for a database connection",
                         thread_id)
                     self.cpool_lock.wait(timeout)
+                    if self.closing.is_set():
+                        break
                     logging.debug(
                         "Thread[%i] resuming search for database connection",
                         thread_id)
@@ -4880,7 +4884,9 @@ class SQLEntityContainer(object):
             return cpool_item
         # we are defeated, no database connection for the caller
         # release lock on the module as there is no connection to release
-        self.module_lock.release()
+        with self.cpool_lock:
+            self.module_lock.release()
+            self.cpool_lock.notify_all()
         return None
 
     def _reclaim(self, cpool_item):
@@ -4913,7 +4919,7 @@ class SQLEntityContainer(object):
                     if not cpool_item.locked:
                         del self.cpool_locked[thread_id]
                         self.cpool_unlocked[thread_id] = cpool_item
-                        self.cpool_lock.notify()
+                        self.cpool_lock.notify_all()
                     return
             # it seems likely that some other thread is going to leave a
             # locked connection now, let's try and find it to correct
@@ -4931,7 +4937,7 @@ class SQLEntityContainer(object):
                 if not bad_item.locked:
                     del self.cpool_locked[bad_thread]
                     self.cpool_unlocked[bad_item.thread_id] = bad_item
-                    self.cpool_lock.notify()
+                    self.cpool_lock.notify_all()
                     logging.error(
                         "Thread[%i] released database connection originally "
                         "acquired by Thread[%i]", thread_id, bad_thread)
@@ -5005,6 +5011,9 @@ class SQLEntityContainer(object):
             for cpool_item in locked_list:
                 if not cpool_item.thread.is_alive():
                     to_close.append(self._reclaim(cpool_item))
+            # connections are closed while we have the module lock
+            if not self.module_lock.acquire(False):
+                return
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
                 if not cpool_item.thread.is_alive():
@@ -5037,6 +5046,9 @@ class SQLEntityContainer(object):
         for dbc in to_close:
             if dbc is not None:
                 self.close_connection(dbc)
+        with self.cpool_lock:
+            self.module_lock.release()
+            self.cpool_lock.notify_all()
 
     def open(self):
         """Creates and returns a new connection object.
@@ -5094,13 +5106,12 @@ class SQLEntityContainer(object):
         to_close = []
         self.closing.set()
         with self.cpool_lock:
+            # threads that are waiting to acquire a connection must give up
+            self.cpool_lock.notify_all()
             nlocked = None
             while True:
                 while self.cpool_idle:
                     cpool_item = self.cpool_idle.pop()
-                    logging.error(
-                        "Thread[%i] failed to release database connection "
-                        "before terminating", cpool_item.thread_id)
                     to_close.append(cpool_item.dbc)
                 while self.cpool_unlocked:
                     unlocked_id, cpool_item = self.cpool_unlocked.popitem()
-- 
2.43.0


From 123807e727d84c66a5eff9a35447bc801be2b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 108/362] fix: SQL connection pool failed recycling a
 connection that could not be opened

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 159611a..1e3823f 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4869,7 +4869,7 @@ class SQLEntityContainer(object):
         if close_dbc is not None:
             self.close_connection(close_dbc)
         if cpool_item:
-            if close_flag:
+            if close_flag and cpool_item.dbc is not None:
                 self.close_connection(cpool_item.dbc)
                 cpool_item.dbc = None
             if cpool_item.dbc is None:
-- 
2.43.0


From 8a4ecfa024909c43b812c9365c4f14e2ccaf7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 109/362] fix: closing a SQL container broke connections before
 the timeout

---
 pyslet/odata2/sqlds.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 1e3823f..4147936 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5109,6 +5109,7 @@ class SQLEntityContainer(object):
             # threads that are waiting to acquire a connection must give up
             self.cpool_lock.notify_all()
             nlocked = None
+            start = time.time()
             while True:
                 while self.cpool_idle:
                     cpool_item = self.cpool_idle.pop()
@@ -5141,10 +5142,17 @@ class SQLEntityContainer(object):
                     # shrinking, wait for locked connections to be
                     # released
                     nlocked = len(self.cpool_locked)
+                    start = time.time()
                     logging.warning(
                         "Waiting to break unreleased database connections")
-                    self.cpool_lock.wait(timeout)
-                    continue
+                if self.cpool_locked:
+                    if timeout is None:
+                        self.cpool_lock.wait()
+                        continue
+                    now = time.time()
+                    if now < start + timeout:
+                        self.cpool_lock.wait(start + timeout - now)
+                        continue
                 # we're not getting anywhere, force-close these
                 # connections
                 locked_list = list(dict_values(self.cpool_locked))
-- 
2.43.0


From 24106183d3ed29185b5bb3d2beb7adef4ca15d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 110/362] fix: ODataURI accepted paths that only share a prefix
 with the service root

---
 pyslet/odata2/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index ee081ac..717addb 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2191,7 +2191,10 @@ class ODataURI(PEP8Compatibility):
             #   both ds_uri and path_prefix are relative, this is an error
             raise ValueError("path_prefix cannot be relative: %s" %
                              path_prefix)
-        if path_prefix and not ds_uri.abs_path.startswith(path_prefix):
+        if path_prefix and (
+                not ds_uri.abs_path.startswith(path_prefix) or
+                ds_uri.abs_path[len(path_prefix):len(path_prefix) + 1] not in
+                ('', '/')):
             # this is not a URI we own
             return
         #
-- 
2.43.0


From 29b207448c27607dd5bf6f8fe796c698315aaeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:33 +0000
Subject: [PATCH 111/362] fix: percent-encoding in OData key predicates was
 decoded twice

---
 pyslet/odata2/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 717addb..c8950c4 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2396,7 +2396,7 @@ class ODataURI(PEP8Compatibility):
             if len(keys) == 0:
                 return name, {}
             elif len(keys) == 1:
-                return name, {keys[0][0]: uri_literal_from_str(keys[0][1])}
+                return name, {keys[0][0]: cls._literal_from_text(keys[0][1])}
             else:
                 key_predicate = {}
                 for k in keys:
@@ -2404,12 +2404,18 @@ class ODataURI(PEP8Compatibility):
                         raise ValueError(
                             "unrecognized key predicate: %s" % repr(keys))
                     kname, value = k
-                    kvalue = uri_literal_from_str(value)
+                    kvalue = cls._literal_from_text(value)
                     key_predicate[kname] = kvalue
                 return name, key_predicate
         else:
             return segment, None
 
+    @staticmethod
+    def _literal_from_text(source):
+        """Parses a literal that has already been percent-decoded"""
+        p = Parser(source)
+        return p.require_production_end(p.parse_uri_literal(), "uri literal")
+
     def get_param_value(self, param_name):
         if param_name in self.param_table:
             param_def = self.query_options[self.param_table[param_name]]
-- 
2.43.0


From e2176d8be5fc4455f28a106243946857b0d558ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:33 +0000
Subject: [PATCH 112/362] fix: badly formed OData key predicates were accepted

---
 pyslet/odata2/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index c8950c4..623ccec 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2386,12 +2386,14 @@ class ODataURI(PEP8Compatibility):
                         kname = ''
                         vstring = []
                     elif c == '=' and not qmode:
+                        if kname or not vstring:
+                            raise ValueError(
+                                "badly formed key predicate: %s" % keys)
                         kname = ''.join(vstring)
                         vstring = []
                     else:
                         vstring.append(c)
-                if vstring or kname:
-                    keylist.append((kname, ''.join(vstring)))
+                keylist.append((kname, ''.join(vstring)))
                 keys = keylist
             if len(keys) == 0:
                 return name, {}
-- 
2.43.0


From 2e5c93b86096be73c4fc854440a14de157488f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:50 +0000
Subject: [PATCH 113/362] fix: misplaced $metadata, $batch and $links in OData
 URIs were accepted

---
 pyslet/odata2/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 623ccec..859327f 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2248,13 +2248,12 @@ class ODataURI(PEP8Compatibility):
                             (segment,
                              PathOption.to_str(
                                  self.path_option)))
-                    if self.nav_path and self.path_option in (
+                    if self.nav_path and path_option in (
                             PathOption.batch, PathOption.metadata):
                         raise InvalidPathOption(
                             "$%s must be the only path segment" %
-                            PathOption.to_str(
-                                self.path_option))
-                    elif self.path_option == PathOption.links:
+                            PathOption.to_str(path_option))
+                    elif path_option == PathOption.links:
                         if not self.nav_path:
                             raise InvalidPathOption(
                                 "resource path must not start with $links")
-- 
2.43.0


From 015d04f4bdab5c7190e44bd56682b1a84f00dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 114/362] fix: metadata documents with missing references
 raised AttributeError, KeyError or TypeError

---
 pyslet/odata2/csdl.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 6b67179..baf3968 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -4228,7 +4228,8 @@ class EntityType(Type):
                     logging.warning(
                         "Ambiguous navigation: %s.%s", self.name, p.name)
                     p.mark_as_ambiguous()
-        self.Key.update_type_refs(scope, stop_on_errors)
+        if self.Key is not None:
+            self.Key.update_type_refs(scope, stop_on_errors)
 
 
 class ComplexType(Type):
@@ -4337,8 +4338,12 @@ class Association(NameTableMixin, CSDLElement):
         # association Once we find them, set the back-link
         np_list = []
         for iEnd in self.AssociationEnd:
+            if iEnd.entityType is None:
+                # missing reference
+                continue
             for np in iEnd.entityType.NavigationProperty:
-                if scope[np.relationship] is self and not np.ambiguous:
+                if np.relationship in scope and \
+                        scope[np.relationship] is self and not np.ambiguous:
                     np_list.append(np)
                     break
         if len(np_list) == 2:
@@ -4402,7 +4407,8 @@ class AssociationEnd(CSDLElement):
             self.entityType = self.otherEnd = None
             self.entityType = scope[self.type]
             if not isinstance(self.entityType, EntityType):
-                raise "AssociationEnd not bound to EntityType (%s)" % self.type
+                raise KeyError(
+                    "AssociationEnd not bound to EntityType (%s)" % self.type)
             if not isinstance(self.parent, Association) or \
                     not len(self.parent.AssociationEnd) == 2:
                 raise ModelIncomplete(
@@ -4646,6 +4652,9 @@ class EntitySet(CSDLElement):
             self.entityType = scope[self.entityTypeName]
             if not isinstance(self.entityType, EntityType):
                 raise KeyError("%s is not an EntityType" % self.entityTypeName)
+            if self.entityType.Key is None:
+                raise ModelIncomplete(
+                    "EntityType %s has no Key" % self.entityTypeName)
             self.keys = []
             for kp in self.entityType.Key.PropertyRef:
                 self.keys.append(kp.name)
@@ -5278,6 +5287,10 @@ class FunctionImport(NameTableMixin, CSDLElement):
 
     def validate(self):
         """Validates this FunctionImport"""
+        if self.returnTypeRef is None:
+            raise ModelIncomplete(
+                "FunctionImport %s has an undeclared return type, entity set "
+                "or parameter type" % self.name)
         # If the return type of FunctionImport is a collection of
         # entities, the EntitySet attribute MUST be defined
         if (self.returnTypeRef.collection and
-- 
2.43.0


From 290738dd165246978460e12d615171a63ddcbd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 115/362] fix: navigation properties of self associations were
 their own back links

---
 pyslet/odata2/csdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index baf3968..d943c74 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -4343,7 +4343,8 @@ class Association(NameTableMixin, CSDLElement):
                 continue
             for np in iEnd.entityType.NavigationProperty:
                 if np.relationship in scope and \
-                        scope[np.relationship] is self and not np.ambiguous:
+                        scope[np.relationship] is self and \
+                        np.fromRole == iEnd.name and not np.ambiguous:
                     np_list.append(np)
                     break
         if len(np_list) == 2:
-- 
2.43.0


From 3d08f0327396b930a83d21c6612f2684fa2b7a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 116/362] fix: search_containers returned types, associations
 and containers

---
 pyslet/odata2/metadata.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/metadata.py b/pyslet/odata2/metadata.py
index 80d5be8..f97b471 100755
--- a/pyslet/odata2/metadata.py
+++ b/pyslet/odata2/metadata.py
@@ -226,12 +226,18 @@ class DataServices(edmx.DataServices):
 
         If *name* can't be found KeyError is raised."""
         resource = None
-        if name in self.defaultContainer:
-            return self.defaultContainer[name]
+        if self.defaultContainer is not None and \
+                name in self.defaultContainer:
+            resource = self.defaultContainer[name]
+            if isinstance(resource, (edm.EntitySet, edm.FunctionImport)):
+                return resource
         else:
             for s in self.Schema:
                 if name in s:
                     resource = s[name]
+                    if not isinstance(resource, (edm.EntitySet,
+                                                 edm.FunctionImport)):
+                        continue
                     container = resource.find_parent(edm.EntityContainer)
                     if container is self.defaultContainer:
                         continue
-- 
2.43.0


From 06c17475a988aed79f7566c0891c78c160726ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 117/362] fix: SyndicationContributorUri was mapped to
 atom:source

---
 pyslet/odata2/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/metadata.py b/pyslet/odata2/metadata.py
index f97b471..5a02d2a 100755
--- a/pyslet/odata2/metadata.py
+++ b/pyslet/odata2/metadata.py
@@ -43,7 +43,9 @@ class FeedCustomisationMixin(MigratedClass):
         'SyndicationContributorEmail': [
             (atom.ATOM_NAMESPACE, "contributor"),
             (atom.ATOM_NAMESPACE, "email")],
-        'SyndicationContributorUri': [(atom.ATOM_NAMESPACE, "source")]
+        'SyndicationContributorUri': [
+            (atom.ATOM_NAMESPACE, "contributor"),
+            (atom.ATOM_NAMESPACE, "uri")]
     }
 
     @old_method('GetTargetPath')
-- 
2.43.0


From 55a95c8bcb08ff697a89b12a50dac19c67cf555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:01 +0000
Subject: [PATCH 118/362] fix: association sets with one undeclared entity set
 were half bound

---
 pyslet/odata2/csdl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index d943c74..4013800 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -4728,6 +4728,10 @@ class EntitySet(CSDLElement):
                 if from_end.associationEnd.multiplicity == Multiplicity.One:
                     to_end.entity_set.set_unbound_principal(to_end)
             for association_set in container.AssociationSet:
+                if [e for e in association_set.AssociationSetEnd
+                        if e.associationEnd is None]:
+                    # one of the ends is an undeclared reference
+                    continue
                 for iEnd in association_set.AssociationSetEnd:
                     if iEnd.entity_set is self:
                         # there is no requirement that says every
-- 
2.43.0


From 3733b9b65edef98e5b9a5992f06c9bb369497f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 119/362] fix: ambiguous navigation properties were bound to a
 set named after the target type

---
 pyslet/odata2/csdl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 4013800..2970873 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -4697,7 +4697,9 @@ class EntitySet(CSDLElement):
                         raise ModelConstraintError(
                             "Property %s.%s has an ambiguous target set" %
                             (self.name, np.name))
-                    # eset = esets[0]
+                    elif not esets:
+                        continue
+                    eset = esets[0]
                 else:
                     continue
                 # create a unique name
@@ -4717,7 +4719,7 @@ class EntitySet(CSDLElement):
                 from_end.entitySetName = self.name
                 to_end = association_set.add_child(AssociationSetEnd)
                 to_end.name = np.to_end.name
-                to_end.entitySetName = np.to_end.entityType.name
+                to_end.entitySetName = eset.name
                 # add the auto-generated set to the container
                 # automatically updates set references
                 container.add_auto_aset(association_set)
-- 
2.43.0


From a346351c98ba1fe239647e273a66f2b224ba3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 120/362] fix: navigation properties of associations with the
 same name in different schemas were taken to be ambiguous

---
 pyslet/odata2/csdl.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 2970873..e625efd 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -4212,13 +4212,14 @@ class EntityType(Type):
         # AssociationSets to be created in any container that binds the
         # type to an EntitySet
         aroles = {}
-        # aroles maps AssociationEnds onto navigation properties
+        # aroles maps AssociationEnds onto navigation properties, we use
+        # the id as ends of different associations may compare equal
         for p in self.NavigationProperty:
             if p.from_end is not None:
-                if p.from_end not in aroles:
-                    aroles[p.from_end] = [p]
+                if id(p.from_end) not in aroles:
+                    aroles[id(p.from_end)] = [p]
                 else:
-                    aroles[p.from_end].append(p)
+                    aroles[id(p.from_end)].append(p)
         # now if there are any duplicates these are ambiguous references
         # and need to be marked as such
         for arole, plist in dict_items(aroles):
-- 
2.43.0


From 0a52a4ae30cc1b591be4efd6fcc107ab9dcad716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 121/362] fix: search_containers confused function parameters
 with names in other containers

---
 pyslet/odata2/metadata.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pyslet/odata2/metadata.py b/pyslet/odata2/metadata.py
index 5a02d2a..2bbdcb6 100755
--- a/pyslet/odata2/metadata.py
+++ b/pyslet/odata2/metadata.py
@@ -233,17 +233,16 @@ class DataServices(edmx.DataServices):
             resource = self.defaultContainer[name]
             if isinstance(resource, (edm.EntitySet, edm.FunctionImport)):
                 return resource
-        else:
-            for s in self.Schema:
-                if name in s:
-                    resource = s[name]
-                    if not isinstance(resource, (edm.EntitySet,
-                                                 edm.FunctionImport)):
-                        continue
-                    container = resource.find_parent(edm.EntityContainer)
-                    if container is self.defaultContainer:
-                        continue
-                    return resource
+        for s in self.Schema:
+            if name in s:
+                resource = s[name]
+                if not isinstance(resource, (edm.EntitySet,
+                                             edm.FunctionImport)):
+                    continue
+                container = resource.find_parent(edm.EntityContainer)
+                if container is self.defaultContainer:
+                    continue
+                return resource
         raise KeyError(
             "No entity set or service operation with name %s" % name)
 
-- 
2.43.0


From 2fc03b6f72dc2ce92b2f18eb627781ae4b74ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 122/362] fix: JSON dates without an offset and dates before
 1970 were not read correctly

---
 pyslet/odata2/core.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 859327f..b540d74 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2893,24 +2893,18 @@ def parse_asp_dot_net_date(src):
     if not (src.startswith("/Date(") and src.endswith(")/")):
         raise ValueError
     ticks = src[6:-2]
-    if '+' in ticks:
-        # split by +
-        ticks = ticks.split('+')
-        zdir = 1
-    elif '-' in ticks:
-        # split by -
-        ticks = ticks.split('-')
-        zdir = -1
+    # ticks may be negative, any offset follows the first character
+    zpos = max(ticks.find('+', 1), ticks.find('-', 1))
+    if zpos > 0:
+        zdir = 1 if ticks[zpos] == '+' else -1
+        zoffset = int(ticks[zpos + 1:])
+        ticks = ticks[:zpos]
     else:
-        zdir = 0
-    if zdir:
-        if len(ticks) != 2:
-            raise ValueError
-        zoffset = int(ticks[1])
-    else:
-        zoffset = 0
-    t, overflow = iso.Time().offset(
-        seconds=int(ticks[0]) / 1000.0)
+        zdir = zoffset = 0
+    overflow, msecs = divmod(int(ticks), TICKS_PER_DAY)
+    minutes, msecs = divmod(msecs, 60000)
+    t = iso.Time(hour=minutes // 60, minute=minutes % 60,
+                 second=(msecs / 1000.0 if msecs % 1000 else msecs // 1000))
     t = t.with_zone(zdir, zoffset // 60, zoffset % 60)
     d = iso.Date(absolute_day=BASE_DAY + overflow)
     return iso.TimePoint(date=d, time=t)
-- 
2.43.0


From b2c864bcdcd7d5032d9229a73cf463c914b1680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 123/362] fix: JSON dates could be written one millisecond
 early

---
 pyslet/odata2/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index b540d74..6db4187 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2858,7 +2858,7 @@ def simple_value_to_json_str(v):
         # a strange format based on ticks, by definition, DateTime has no
         # offset
         ticks = (v.value.date.get_absolute_day() - BASE_DAY) * \
-            TICKS_PER_DAY + int(v.value.time.get_total_seconds() * 1000)
+            TICKS_PER_DAY + int(v.value.time.get_total_seconds() * 1000 + 0.5)
         return '"\\/Date(%i)\\/"' % ticks
     elif isinstance(v, (edm.DecimalValue, edm.DoubleValue, edm.GuidValue,
                         edm.Int64Value, edm.SingleValue, edm.StringValue,
@@ -2869,7 +2869,7 @@ def simple_value_to_json_str(v):
         # a strange format based on ticks, by definition, DateTime has no
         # offset
         ticks = (v.value.date.get_absolute_day() - BASE_DAY) * \
-            TICKS_PER_DAY + int(v.value.time.get_total_seconds() * 1000)
+            TICKS_PER_DAY + int(v.value.time.get_total_seconds() * 1000 + 0.5)
         dir, offset = v.value.get_zone()
         if dir > 0:
             s = "+"
-- 
2.43.0


From c07e28419fcb234ff4a98cc3cc48c2378e74742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 124/362] fix: white space was collapsed in Atom and XML
 property values

---
 pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 6db4187..e65ce14 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3266,6 +3266,10 @@ class Property(ODataElement):
         # an :py:class:`pyslet.mc_csdl.EDMValue` instance
         self.edmValue = None
 
+    def get_space(self):
+        """White space is always significant in property values"""
+        return 'preserve'
+
     def get_simple_type(self):
         try:
             type = self.get_attribute((ODATA_METADATA_NAMESPACE, 'type'))
-- 
2.43.0


From 2f6cc0d8fb6eb2d67c40aae77a6b8c3f3715e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 125/362] fix: etags could not be formatted for strings that
 are not printable ASCII

---
 pyslet/odata2/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index e65ce14..d3c20ec 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2755,8 +2755,11 @@ class Entity(edm.Entity):
     def format_etag(etag, strong):
         s = "" if strong else "W/"
         return s + grammar.quote_string(
-            b','.join(ODataURI.format_literal(x).encode('ascii')
-                      for x in etag)).decode('ascii')
+            b','.join(
+                uri.escape_data(
+                    ODataURI.format_literal(x).encode('utf-8'),
+                    lambda c: False).encode('ascii')
+                for x in etag)).decode('ascii')
 
 
 def complex_property_to_json_v2(complex_value):
-- 
2.43.0


From f3070d43d5cabc31cac2828f7a6804f05acdb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 126/362] fix: complex properties missing from JSON entities
 raised AttributeError

---
 pyslet/odata2/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index d3c20ec..75b8c06 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2562,7 +2562,7 @@ class Entity(edm.Entity):
                     # assume a complex value then
                     complex_value_from_json(v, obj[k])
             else:
-                v.set_from_value(None)
+                v.set_null()
         if self.exists is False:
             # we need to look for any link bindings
             for nav_property in self.navigation_keys():
@@ -2809,7 +2809,7 @@ def complex_value_from_json(complex_value, obj):
             else:
                 complex_value_from_json(v, obj[k])
         else:
-            v.set_from_value(None)
+            v.set_null()
 
 
 TICKS_PER_DAY = 86400000
-- 
2.43.0


From c99130c0a55f35b72c529d19071da8d7008b4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 127/362] fix: a list was written to JSON for bindings of
 single-valued navigation properties

---
 pyslet/odata2/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 75b8c06..cfdd806 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2722,9 +2722,14 @@ class Entity(edm.Entity):
                 if not dv.bindings:
                     continue
                 target_set = dv.target()
-                yield ', %s :[' % json.dumps(k)
+                if dv.isCollection:
+                    yield ', %s :[' % json.dumps(k)
+                    bindings = dv.bindings
+                else:
+                    yield ', %s :' % json.dumps(k)
+                    bindings = dv.bindings[-1:]
                 sep = False
-                for binding in dv.bindings:
+                for binding in bindings:
                     if sep:
                         yield ', '
                     else:
@@ -2744,7 +2749,8 @@ class Entity(edm.Entity):
                                 target_set.get_key_dict(binding))
                     if href:
                         yield '{ "__metadata":{"uri":%s}}' % json.dumps(href)
-                yield ']'
+                if dv.isCollection:
+                    yield ']'
         yield '}'
 
     def link_json(self):
-- 
2.43.0


From 4da24a24eff908c18daf2d8cfa12241c26697f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:19 +0000
Subject: [PATCH 128/362] fix: null values of properties mapped to Atom
 elements were not read back as null

---
 pyslet/odata2/core.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index cfdd806..ef0578e 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3676,6 +3676,18 @@ class Entry(atom.Entry):
             p.set_value(value)
             self._properties[key] = p
 
+    def find_target_path(self, target_path):
+        """Returns the element at target_path, None if there isn't one"""
+        target_element = self
+        for ename in target_path:
+            for child in target_element.get_children():
+                if not is_text(child) and child.get_xmlname() == ename:
+                    target_element = child
+                    break
+            else:
+                return None
+        return target_element
+
     def resolve_target_path(self, target_path, prefix, ns):
         doc = self.get_document()
         target_element = self
@@ -3718,11 +3730,13 @@ class Entry(atom.Entry):
             # catch property-level feed customisation here
             property_def = entity.type_def[k]
             target_path = property_def.get_target_path()
-            if target_path and not property_def.keep_in_content():
-                # This value needs to be read from somewhere special
-                prefix, ns = property_def.get_fc_ns_prefix()
-                target_element = self.resolve_target_path(target_path, prefix,
-                                                          ns)
+            target_element = None
+            if target_path and not property_def.keep_in_content() and \
+                    k not in self._properties:
+                # This value needs to be read from somewhere special,
+                # except that nulls are always kept in the content
+                target_element = self.find_target_path(target_path)
+            if target_element is not None:
                 if isinstance(target_element, atom.Date):
                     dt_offset = target_element.get_value()
                     if isinstance(v, edm.DateTimeOffsetValue):
@@ -3735,6 +3749,7 @@ class Entry(atom.Entry):
                     else:
                         # give up, treat this value as NULL
                         v.set_from_value(None)
+                    selected.add(k)
                 else:
                     # now we need to grab the actual value, only interested in
                     # data
@@ -4011,13 +4026,14 @@ class Entry(atom.Entry):
             # catch property-level feed customisation here
             property_def = entity.type_def[k]
             target_path = property_def.get_target_path()
-            if target_path:
+            if target_path and entity.is_selected(k) and v:
                 # This value needs to go somewhere special
                 prefix, ns = property_def.get_fc_ns_prefix()
                 target_element = self.resolve_target_path(target_path, prefix,
                                                           ns)
                 self.set_fcvalue(target_element, v)
                 if not property_def.keep_in_content():
+                    # nulls must stay in the content
                     continue
             # and watch out for unselected properties
             if entity.is_selected(k):
-- 
2.43.0


From 09114586e81194924d7e0f565bbec58e1c6e8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 129/362] fix: empty expansions in Atom entries could not be
 read

---
 pyslet/odata2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index ef0578e..1276378 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3580,6 +3580,9 @@ class Link(atom.Link):
                         entity.exists = exists
                         entry.get_value(entity)
                         entries.append(entity)
+                else:
+                    # an empty feed or a null entity
+                    entries = []
                 deferred.set_expansion(
                     ExpandedEntityCollection(
                         from_entity=deferred.from_entity,
-- 
2.43.0


From ad3dca32529f4f7a733fcffb0ad73381b2484ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 130/362] fix: elements containing the empty string were
 written as a single space

---
 pyslet/xml/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index bf98504..cf351e4 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1805,7 +1805,7 @@ class Element(Node):
             ichild = next(children)
         except StopIteration:
             # There was only one child
-            if is_text(first_child):
+            if is_text(first_child) and first_child:
                 first_child = collapse_space(first_child)
             yield first_child
             return
-- 
2.43.0


From afb5518ae57a09e18404b40582e2181fa11b9b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 131/362] fix: DateTime values mapped to Atom dates lost their
 fractional seconds

---
 pyslet/odata2/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 1276378..88b986b 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3903,8 +3903,7 @@ class Entry(atom.Entry):
                         target_element.set_value(to_text(v))
                     elif isinstance(v, edm.DateTimeValue):
                         # assume UTC
-                        dt_offset = v.value.with_zone(zdirection=0)
-                        target_element.set_value(to_text(dt_offset))
+                        target_element.set_value(to_text(v) + "Z")
                     elif isinstance(v, edm.StringValue):
                         try:
                             dt_offset = iso.TimePoint.from_str(v.value)
@@ -4049,8 +4048,7 @@ class Entry(atom.Entry):
                 target_element.set_value(to_text(v))
             elif isinstance(v, edm.DateTimeValue):
                 # assume UTC
-                dt_offset = v.value.with_zone(zdirection=0)
-                target_element.set_value(to_text(dt_offset))
+                target_element.set_value(to_text(v) + "Z")
             elif isinstance(v, edm.StringValue):
                 try:
                     dt_offset = iso.TimePoint.from_str(v.value)
-- 
2.43.0


From 590eedb691c8b7715a1b0ced97e9e628b494253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 132/362] fix: paths containing non-ASCII characters were
 misread in Python 3

---
 pyslet/odata2/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 9267e10..bceac22 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -246,6 +246,12 @@ class Server(app.Server):
         ..  _RFC3875 http://www.ietf.org/rfc/rfc3875"""
         if isinstance(pathinfo, bytes):
             pathinfo = pathinfo.decode('utf-8')
+        else:
+            # PEP-3333: octets are passed as ISO-8859-1 characters
+            try:
+                pathinfo = pathinfo.encode('latin-1').decode('utf-8')
+            except UnicodeError:
+                pass
         qmode = False
         result = []
         for c in pathinfo:
-- 
2.43.0


From 426f0ec613e06b4402880e02dc55b96b3f05d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 133/362] fix: entities returned by POST left out properties
 missing from the request

---
 pyslet/odata2/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index bceac22..c3a2d90 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -806,6 +806,9 @@ class Server(app.Server):
                     # read the entity from the request
                     self.read_entity(entity, environ)
                     resource.insert_entity(entity)
+                    if entity.selected is not None:
+                        # read back the values used for missing properties
+                        entity = resource[entity.key()]
                     response_headers.append(
                         ('Location', str(entity.get_location())))
                     return self.return_entity(
-- 
2.43.0


From 029cc662d29aec84c2f7c007db791e89fa4fca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 134/362] fix: MERGE requests in JSON set missing properties to
 null, PUT requests failed if the key was missing

---
 pyslet/odata2/core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 88b986b..f57f0b1 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2554,6 +2554,8 @@ class Entity(edm.Entity):
             for read access.  When True, new bindings are added to the
             entity for links provided in the obj.  If the entity doesn't
             exist then this argument is ignored."""
+        selected = set()
+        unselected = set()
         for k, v in self.data_items():
             if k in obj:
                 if isinstance(v, edm.SimpleValue):
@@ -2561,8 +2563,16 @@ class Entity(edm.Entity):
                 else:
                     # assume a complex value then
                     complex_value_from_json(v, obj[k])
+                selected.add(k)
             else:
-                v.set_null()
+                # Property is not selected, make it NULL if not a key
+                if k not in self.entity_set.keys:
+                    v.set_null()
+                unselected.add(k)
+        if not unselected:
+            self.selected = None
+        else:
+            self.selected = selected
         if self.exists is False:
             # we need to look for any link bindings
             for nav_property in self.navigation_keys():
-- 
2.43.0


From 117f65a8498977ea942c5546905a46232c50ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 135/362] fix: next page links dropped $top so clients got more
 entities than requested

---
 pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index f57f0b1..32f5583 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3017,6 +3017,10 @@ class EntityCollection(edm.EntityCollection):
                 sys_query_options[
                     SystemQueryOption.orderby] = \
                     CommonExpression.orderby_to_str(self.orderby)
+            if self.top is not None:
+                # what remains after this page
+                sys_query_options[SystemQueryOption.top] = \
+                    to_text(self.top - self.topmax)
             sys_query_options[SystemQueryOption.skiptoken] = to_text(token)
             return uri.URI.from_octets(
                 str(base_url) +
-- 
2.43.0


From a25b9646cd7e91393244c143c3677c60c82ab987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 136/362] fix: XML links documents contained malformed URIs

---
 pyslet/odata2/server.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index c3a2d90..8454a40 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -959,8 +959,7 @@ class Server(app.Server):
             doc = core.Document(root=core.Links)
             for e in entities.itervalues():
                 child = doc.root.add_child(core.URI)
-                child.set_value(str(self.service_root) + "%s(%s)" %
-                                (e.entity_set.name, repr(e.key())))
+                child.set_value(str(e.get_location()))
             data = str(doc)
         data = data.encode('utf-8')
         response_headers.append(("Content-Type", str(response_type)))
-- 
2.43.0


From 5ade90ab45f17687003217258ebc3f8d45a3d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 137/362] fix: malformed requests were answered with 500
 Internal errors or accepted

---
 pyslet/odata2/core.py   | 58 ++++++++++++++++++++++++++++++++---------
 pyslet/odata2/server.py | 46 +++++++++++++++++++++++++-------
 2 files changed, 83 insertions(+), 21 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 32f5583..8aafef6 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -974,7 +974,10 @@ class PropertyExpression(CommonExpression):
     def evaluate(self, context_entity):
         if context_entity:
             if isinstance(context_entity, edm.Entity):
-                if context_entity.is_entity_collection(self.name):
+                if self.name not in context_entity:
+                    raise EvaluationError(
+                        "Undefined property: %s" % self.name)
+                elif context_entity.is_entity_collection(self.name):
                     raise EvaluationError(
                         "%s navigation property must have cardinality of "
                         "1 or 0..1" % self.name)
@@ -2554,6 +2557,8 @@ class Entity(edm.Entity):
             for read access.  When True, new bindings are added to the
             entity for links provided in the obj.  If the entity doesn't
             exist then this argument is ignored."""
+        if not isinstance(obj, dict):
+            raise InvalidData("JSON object expected: %s" % repr(obj)[:256])
         selected = set()
         unselected = set()
         for k, v in self.data_items():
@@ -2582,13 +2587,19 @@ class Entity(edm.Entity):
                 if not self.is_entity_collection(nav_property):
                     # wrap singletons for convenience
                     links = (links,)
+                elif not isinstance(links, list):
+                    raise InvalidData("JSON array expected for %s: %s" %
+                                      (nav_property, repr(links)[:256]))
                 target_set = self.entity_set.get_target(nav_property)
                 with target_set.open() as collection:
                     for link in links:
+                        if not isinstance(link, dict):
+                            raise InvalidData(
+                                "JSON object expected for %s: %s" %
+                                (nav_property, repr(link)[:256]))
                         if len(link) == 1 and '__metadata' in link:
                             # bind to an existing entity
-                            href = uri.URI.from_octets(
-                                link['__metadata']['uri'])
+                            href = uri_from_json_metadata(link)
                             if entity_resolver is not None:
                                 if not href.is_absolute():
                                     # we'll assume that the base URI is
@@ -2625,10 +2636,10 @@ class Entity(edm.Entity):
                     # missing or can't be updated these this way
                     continue
                 link = obj[nav_property]
-                if '__metadata' in link:
+                if isinstance(link, dict) and '__metadata' in link:
                     target_set = self.entity_set.get_target(nav_property)
                     # bind to an existing entity
-                    href = uri.URI.from_octets(link['__metadata']['uri'])
+                    href = uri_from_json_metadata(link)
                     if entity_resolver is not None:
                         if not href.is_absolute():
                             #   we'll assume that the base URI is the
@@ -2778,6 +2789,15 @@ class Entity(edm.Entity):
                 for x in etag)).decode('ascii')
 
 
+def uri_from_json_metadata(link):
+    """Returns the URI of an entity from its JSON representation"""
+    try:
+        return uri.URI.from_octets(link['__metadata']['uri'])
+    except (KeyError, TypeError, AttributeError, uri.URIException):
+        raise InvalidData(
+            "No URI in link: %s" % repr(link)[:256])
+
+
 def complex_property_to_json_v2(complex_value):
     """Return a version 2 JSON complex entity."""
     return '{"results":%s}' % complex_property_to_json_v1(complex_value)
@@ -2796,6 +2816,8 @@ def complex_property_to_json_v1(complex_value):
 
 
 def complex_property_from_json(complex_value, obj):
+    if not isinstance(obj, dict):
+        raise InvalidData("JSON object expected: %s" % repr(obj)[:256])
     if complex_value.p_def.name in obj:
         complex_value_from_json(complex_value, obj[complex_value.p_def.name])
 
@@ -2818,6 +2840,11 @@ def complex_value_to_json_str(complex_value):
 
 
 def complex_value_from_json(complex_value, obj):
+    if obj is None:
+        complex_value.set_null()
+        return
+    if not isinstance(obj, dict):
+        raise InvalidData("JSON object expected: %s" % repr(obj)[:256])
     for k, v in complex_value.iteritems():
         if k in obj:
             if isinstance(v, edm.SimpleValue):
@@ -2846,6 +2873,8 @@ def simple_property_to_json_v1(simple_value):
 
 
 def simple_property_from_json(simple_value, obj):
+    if not isinstance(obj, dict):
+        raise InvalidData("JSON object expected: %s" % repr(obj)[:256])
     if simple_value.p_def.name in obj:
         simple_value_from_json(simple_value, obj[simple_value.p_def.name])
 
@@ -2935,17 +2964,22 @@ def simple_value_from_json(v, json_value):
     to reflect the parsed value."""
     if json_value is None:
         v.set_from_value(None)
-    elif isinstance(v, edm.BinaryValue):
-        v.set_from_value(base64.b64decode(json_value))
     elif isinstance(v, (edm.BooleanValue, edm.ByteValue, edm.Int16Value,
                         edm.Int32Value, edm.SByteValue)):
-        v.set_from_value(json_value)
+        try:
+            v.set_from_value(json_value)
+        except TypeError as e:
+            raise ValueError(str(e))
+    elif not is_text(json_value):
+        raise ValueError("JSON string expected: %s" % repr(json_value)[:256])
+    elif isinstance(v, edm.BinaryValue):
+        v.set_from_value(base64.b64decode(json_value))
     elif isinstance(v, edm.DateTimeValue):
         if json_value.startswith("/Date("):
             try:
                 v.set_from_value(
                     parse_asp_dot_net_date(json_value).shift_zone(0))
-            except ValueError:
+            except (ValueError, iso.DateTimeError):
                 raise ValueError(
                     "Bad value for DateTime: %s" % json_value)
         else:
@@ -2956,7 +2990,7 @@ def simple_value_from_json(v, json_value):
                     # shift to UTC and strip zone
                     d = d.shift_zone(0).with_zone(None)
                 v.set_from_value(d)
-            except ValueError:
+            except (ValueError, iso.DateTimeError):
                 raise ValueError(
                     "Unrecognized value for DateTime: %s" % json_value)
     elif isinstance(v, (edm.DecimalValue, edm.DoubleValue, edm.GuidValue,
@@ -2968,7 +3002,7 @@ def simple_value_from_json(v, json_value):
         if json_value.startswith("/Date("):
             try:
                 v.set_from_value(parse_asp_dot_net_date(json_value))
-            except ValueError:
+            except (ValueError, iso.DateTimeError):
                 raise ValueError(
                     "Bad value for DateTimeOffset: %s" % json_value)
         else:
@@ -2979,7 +3013,7 @@ def simple_value_from_json(v, json_value):
                     # assume UTC
                     d = d.with_zone(0)
                 v.set_from_value(d)
-            except ValueError:
+            except (ValueError, iso.DateTimeError):
                 raise ValueError(
                     "Unrecognized value for DateTimeOffset: %s" % json_value)
     else:
diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 8454a40..7ea8bf0 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -351,6 +351,12 @@ class Server(app.Server):
             return self.odata_error(
                 core.ODataURI('error'), environ, start_response, "Bad Request",
                 "Method not allowed: %s" % to_text(e), 400)
+        except (core.ServerError, core.EvaluationError, uri.URIException,
+                xml.XMLError) as e:
+            # malformed requests or expressions that can't be evaluated
+            return self.odata_error(
+                core.ODataURI('error'), environ, start_response, "Bad Request",
+                to_text(e), 400)
         except ValueError as e:
             logging.error(
                 "Error in OData call: %s",
@@ -516,6 +522,9 @@ class Server(app.Server):
                 # Any other type is just a property or simple-type
                 raise core.BadURISegment(name)
         if isinstance(resource, edm.EntityCollection):
+            if odata_uri.path_option == core.PathOption.value:
+                raise core.BadURISegment(
+                    "$value cannot be applied to a collection")
             odata_uri.validate_sys_query_options(1)  # includes 6 Note 2
         elif isinstance(resource, edm.Entity):
             if odata_uri.path_option == core.PathOption.value:
@@ -524,6 +533,9 @@ class Server(app.Server):
             elif odata_uri.path_option != core.PathOption.links:
                 odata_uri.validate_sys_query_options(2)  # includes 6 Note 1
         elif isinstance(resource, edm.Complex):
+            if odata_uri.path_option == core.PathOption.value:
+                raise core.BadURISegment(
+                    "$value cannot be applied to a complex value")
             odata_uri.validate_sys_query_options(3)
         elif isinstance(resource, edm.SimpleValue):
             # 4 & 5 are identical
@@ -625,7 +637,8 @@ class Server(app.Server):
                             request.links_property].open()
                     if isinstance(resource, edm.EntityCollection):
                         with resource as collection:
-                            target_entity = self.read_entity_from_link(environ)
+                            target_entity = self.read_entity_from_link(
+                                environ, collection.entity_set)
                             collection[target_entity.key()] = target_entity
                         return self.return_empty(
                             start_response, response_headers)
@@ -643,7 +656,8 @@ class Server(app.Server):
                     with parent_entity[
                             request.links_property].open() as \
                             collection:
-                        target_entity = self.read_entity_from_link(environ)
+                        target_entity = self.read_entity_from_link(
+                            environ, collection.entity_set)
                         collection.replace(target_entity)
                     return self.return_empty(start_response, response_headers)
                 elif method == "DELETE":
@@ -967,11 +981,11 @@ class Server(app.Server):
         start_response("%i %s" % (200, "Success"), response_headers)
         return [data]
 
-    def read_entity_from_link(self, environ):
+    def read_entity_from_link(self, environ, entity_set):
         input = self.read_xml_or_json(environ)
         if isinstance(input, core.Document):
             if isinstance(input.root, core.URI):
-                return self.get_resource_from_uri(
+                resource = self.get_resource_from_uri(
                     uri.URI.from_octets(input.root.get_value()))
             else:
                 raise core.InvalidData(
@@ -980,12 +994,17 @@ class Server(app.Server):
         else:
             # must be a json object
             try:
-                return self.get_resource_from_uri(
-                    uri.URI.from_octets(input['uri']))
-            except KeyError:
+                href = uri.URI.from_octets(input['uri'])
+            except (KeyError, TypeError, AttributeError):
                 raise core.InvalidData(
                     "Unable to parse link from JSON request body (found %s )" %
                     str(input)[:256])
+            resource = self.get_resource_from_uri(href)
+        if not isinstance(resource, edm.Entity) or \
+                resource.entity_set is not entity_set:
+            raise core.InvalidData(
+                "Link does not identify an entity in %s" % entity_set.name)
+        return resource
 
     def return_link(self, entity, request, environ, start_response,
                     response_headers):
@@ -1034,6 +1053,14 @@ class Server(app.Server):
         start_response("%i %s" % (200, "Success"), response_headers)
         return [data]
 
+    def check_encoding(self, encoding):
+        """Returns encoding if it is one we know"""
+        try:
+            codecs.lookup(encoding)
+        except LookupError:
+            raise core.InvalidData("Unknown charset: %s" % encoding)
+        return encoding
+
     def read_xml_or_json(self, environ):
         """Reads either an XML document or a JSON object from environ."""
         atom_flag = None
@@ -1051,7 +1078,7 @@ class Server(app.Server):
                         break
             encoding = request_type.parameters.get('charset', (None, None))[1]
             if encoding is not None:
-                encoding = encoding.decode('latin-1')
+                encoding = self.check_encoding(encoding.decode('latin-1'))
         input = messages.WSGIInputWrapper(environ)
         uinput = None
         if encoding is None:
@@ -1257,7 +1284,8 @@ class Server(app.Server):
         data = messages.WSGIInputWrapper(environ).read()
         if request_type.type == "text":
             try:
-                encoding = request_type['charset'].decode('latin-1')
+                encoding = self.check_encoding(
+                    request_type['charset'].decode('latin-1'))
             except KeyError:
                 encoding = "iso-8859-1"
             data = data.decode(encoding)
-- 
2.43.0


From d6e26a58d2269ef3d4d4d728fd5f94d728e0b2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:09 +0000
Subject: [PATCH 138/362] fix: $top and $skip were ignored for links in XML

---
 pyslet/odata2/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 7ea8bf0..8edfaba 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -971,7 +971,7 @@ class Server(app.Server):
                 entities.generate_link_coll_json(request.version)))
         else:
             doc = core.Document(root=core.Links)
-            for e in entities.itervalues():
+            for e in entities.iterpage():
                 child = doc.root.add_child(core.URI)
                 child.set_value(str(e.get_location()))
             data = str(doc)
-- 
2.43.0


From f7e20ea005dc6856dbe768c0df73e5d7659fd018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 139/362] fix: OData client combined key and filter without
 parentheses so looked up the wrong entity

---
 pyslet/odata2/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 770b806..84c6ddb 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -308,7 +308,7 @@ class ClientCollection(core.EntityCollection):
     def __getitem__(self, key):
         sys_query_options = {}
         if self.filter is not None:
-            sys_query_options[core.SystemQueryOption.filter] = "%s and %s" % (
+            sys_query_options[core.SystemQueryOption.filter] = "%s and (%s)" % (
                 core.ODataURI.key_dict_to_query(self.entity_set.key_dict(key)),
                 to_text(self.filter))
             entity_url = str(self.base_uri)
-- 
2.43.0


From 6765ac7f65939c7cbcf34f807714f838f73dc442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 140/362] fix: OData client error for an ambiguous key raised
 TypeError

---
 pyslet/odata2/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 84c6ddb..7fc5b1a 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -356,7 +356,7 @@ class ClientCollection(core.EntityCollection):
                 return entity
             else:
                 raise UnexpectedHTTPResponse("%i entities returned from %s" %
-                                             nresults, entity_url)
+                                             (nresults, entity_url))
         elif isinstance(doc.root, core.Error):
             raise KeyError(key)
         else:
-- 
2.43.0


From f7d6917818a18c3a080eb0ccf2f0b3725377e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 141/362] fix: $filter was ignored by navigation properties
 identifying a single entity

---
 pyslet/odata2/server.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 8edfaba..0753f2a 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -688,6 +688,18 @@ class Server(app.Server):
                                 "$value cannot be used since "
                                 "the entity is not a media stream")
                     else:
+                        name, predicate = request.nav_path[-1]
+                        filter = request.sys_query_options.get(
+                            core.SystemQueryOption.filter, None)
+                        if (filter is not None and parent_entity is not None
+                                and not predicate):
+                            # navigation to a single entity
+                            with parent_entity[name].open() as collection:
+                                collection.set_filter(filter)
+                                if resource.key() not in collection:
+                                    raise core.MissingURISegment(
+                                        "%s, entity excluded by $filter" %
+                                        name)
                         self.expand_resource(resource,
                                              request.sys_query_options)
                         return self.return_entity(
-- 
2.43.0


From de99eed05fa0c302aa2b000737a3bed2c0b18114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 142/362] fix: OData client could not iterate over the page of
 a single-valued navigation property

---
 pyslet/odata2/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 7fc5b1a..7d99a23 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -726,6 +726,13 @@ class NavigationCollection(ClientCollection, core.NavigationCollection):
             else:
                 raise core.InvalidEntryDocument(str(entity_url))
 
+    def iterpage(self, set_next=False):
+        if self.isCollection:
+            return super(NavigationCollection, self).iterpage(set_next)
+        else:
+            # the server won't page a single entity
+            return core.EntityCollection.iterpage(self, set_next)
+
     def __getitem__(self, key):
         if self.isCollection:
             return super(NavigationCollection, self).__getitem__(key)
-- 
2.43.0


From 5965756edca2b9574766faebb6e79c12642ea378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 143/362] fix: OData client deleted the link to another entity
 when given the wrong key

---
 pyslet/odata2/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 7d99a23..4a53386 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -865,7 +865,9 @@ class NavigationCollection(ClientCollection, core.NavigationCollection):
                 str(self.linksURI) + core.ODataURI.format_entity_key(entity),
                 'DELETE')
         else:
-            # danger, how do we know that key really is the right one?
+            # the URL doesn't contain the key so make sure it is the right
+            # one, this raises KeyError if it isn't
+            self[key]
             request = http.ClientRequest(str(self.linksURI), 'DELETE')
         self.client.process_request(request)
         if request.status == 204:
-- 
2.43.0


From 2e709c790430189f96531c285bef5edc94cb29d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 144/362] fix: OData client asked for the key 'None' when
 creating a stream without a key

---
 pyslet/odata2/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 4a53386..5403e3b 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -377,7 +377,10 @@ class ClientCollection(core.EntityCollection):
             request.set_content_length(sinfo.size)
         if sinfo.modified is not None:
             request.set_last_modified(params.FullDate(src=sinfo.modified))
-        if isinstance(key, tuple):
+        if key is None:
+            # let the server choose
+            pass
+        elif isinstance(key, tuple):
             # composite key
             request.set_header(
                 "Slug",
-- 
2.43.0


From 41a89dbba33409903b7e4b4108c9bbcf1be9c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 145/362] fix: OData client ignored the key of media link
 entries it inserted

---
 pyslet/odata2/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 5403e3b..cce4fbd 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -133,8 +133,12 @@ class ClientCollection(core.EntityCollection):
             raise edm.EntityExists(str(entity.get_location()))
         if self.is_medialink_collection():
             # insert a blank stream and then update
+            try:
+                key = entity.key()
+            except KeyError:
+                key = None
             mle = self.new_stream(src=io.BytesIO(),
-                                  sinfo=core.StreamInfo(size=0))
+                                  sinfo=core.StreamInfo(size=0), key=key)
             entity.set_key(mle.key())
             # 2-way merge
             mle.merge(entity)
-- 
2.43.0


From cbce6f40b25255e24bf9c21c875293b94e26bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 146/362] fix: OData client wrote the body of error responses
 to the output stream

---
 pyslet/odata2/client.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index cce4fbd..5c68c9b 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -438,7 +438,10 @@ class ClientCollection(core.EntityCollection):
         if out is None:
             request = http.ClientRequest(stream_url, 'HEAD')
         else:
-            request = http.ClientRequest(stream_url, 'GET', res_body=out)
+            swriter = StreamWriter(out)
+            request = http.ClientRequest(
+                stream_url, 'GET', res_body=swriter)
+            swriter.request = request
         request.set_accept("*/*")
         self.client.process_request(request)
         if request.status == 200:
@@ -471,6 +474,31 @@ class ClientCollection(core.EntityCollection):
         return swrapper.sinfo, swrapper.data_gen()
 
 
+class StreamWriter(io.RawIOBase):
+
+    """Passes the body of a successful response on to *out*
+
+    The bodies of redirects and errors are not part of the stream."""
+
+    def __init__(self, out):
+        self.out = out
+        self.request = None
+
+    def readable(self):
+        return False
+
+    def writable(self):
+        return True
+
+    def seekable(self):
+        return False
+
+    def write(self, b):
+        if self.request.response.status == 200:
+            self.out.write(b)
+        return len(b)
+
+
 class EntityStream(io.RawIOBase):
 
     def __init__(self, collection):
-- 
2.43.0


From f38f2362c2b036e130455ffcdb24cfb74a87a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 147/362] fix: OData server did not decode the Slug header

---
 pyslet/odata2/server.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 0753f2a..0fcb235 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -794,8 +794,14 @@ class Server(app.Server):
                         sinfo.modified = params.FullDate.from_http_str(
                             environ["HTTP_LAST_MODIFIED"])
                     input = messages.WSGIInputWrapper(environ)
+                    slug = None
                     if "HTTP_SLUG" in environ:
-                        slug = app.Slug(environ["HTTP_SLUG"])
+                        try:
+                            slug = app.Slug.from_str(environ["HTTP_SLUG"])
+                        except UnicodeError:
+                            # just a hint, ignore it
+                            pass
+                    if slug is not None:
                         # if the slug is a bracketed string treat it
                         # as the key predicate
                         key = None
@@ -810,9 +816,9 @@ class Server(app.Server):
                         if not key:
                             key = resource.entity_set.extract_key(slug.slug)
                     else:
-                        slug = key = None
+                        key = None
                     entity = resource.new_stream(input, sinfo=sinfo, key=key)
-                    if slug:
+                    if slug is not None:
                         for k, v in entity.data_items():
                             # catch property-level feed customisation here
                             property_def = entity.type_def[k]
-- 
2.43.0


From e4ab74c31326e4a3f3bb0c08d1c6c024af37f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 148/362] fix: HTTP parameter values that are empty or not
 ASCII are quoted when formatted

---
 pyslet/http/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index d1e7798..6f99f40 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -182,12 +182,12 @@ def quote_string(s, force=True):
             qstring.append(REVERSE_SOLIDUS)
             qstring.append(b)
             force = True
-        elif is_ctl(b) or is_separator(b):
+        elif is_ctl(b) or is_separator(b) or not is_char(b):
             force = True
             qstring.append(b)
         else:
             qstring.append(b)
-    if force:
+    if force or not s:
         qstring.append(DQUOTE)
     else:
         del qstring[0]
-- 
2.43.0


From ebfd2512a6e1ced9eb3946dae88c41115100662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 149/362] fix: bytes outside US-ASCII are not accepted in HTTP
 tokens

---
 pyslet/http/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index 6f99f40..a1bb622 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -318,7 +318,8 @@ class OctetParser(BasicParser):
         token was found."""
         token = []
         while self.the_char is not None:
-            if is_ctl(self.the_char) or is_separator(self.the_char):
+            if (is_ctl(self.the_char) or is_separator(self.the_char) or
+                    not is_char(self.the_char)):
                 break
             else:
                 token.append(self.the_char)
-- 
2.43.0


From d9b79988f4d29394f8f8575060228057b9ba3da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 150/362] fix: an HTTP quoted string that is never closed is a
 syntax error

---
 pyslet/http/grammar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index a1bb622..369570a 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -434,6 +434,9 @@ class OctetParser(BasicParser):
                     qs.append(qdtext)
                 else:
                     self.parser_error('<">')
+        else:
+            # the source ended before the closing quote
+            self.parser_error('<">')
         return b''.join(qs)
 
     def parse_qdtext(self, unfold=False):
-- 
2.43.0


From 730da2b4726f8908e5c0714e58b63620c2e0880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 151/362] fix: an HTTP separator where an integer is expected
 is a syntax error, not a TypeError

---
 pyslet/http/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index 369570a..598206a 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -749,7 +749,7 @@ class WordParser(ParserMixin):
 
     def is_integer(self):
         """Returns True if the current word is an integer token"""
-        return self.the_word and is_digits(self.the_word)
+        return self.is_token() and is_digits(self.the_word)
 
     def parse_integer(self):
         """Parses an integer token from the list of words
@@ -774,7 +774,7 @@ class WordParser(ParserMixin):
 
     def is_hexinteger(self):
         """Returns True if the current word is a hex token"""
-        return self.the_word and is_hexdigits(self.the_word)
+        return self.is_token() and is_hexdigits(self.the_word)
 
     def parse_hexinteger(self):
         """Parses a hex integer token from the list of words
-- 
2.43.0


From 7904acfdc95ac83bc34c7dd9ddfaf171ef832abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 152/362] fix: the tokens of an HTTP list must be separated by
 commas

---
 pyslet/http/grammar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index 598206a..6bd8477 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -729,6 +729,8 @@ class WordParser(ParserMixin):
             token = self.parse_token()
             if token:
                 result.append(token.decode('ascii'))
+                if not self.parse_separator(COMMA):
+                    break
             elif self.parse_separator(COMMA):
                 continue
             else:
-- 
2.43.0


From c7f38b0c4ea251a623ae01fbab4c9a75f29eebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 153/362] fix: transfer encodings in a list must be separated
 by commas

---
 pyslet/http/params.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index baf6efb..6f589b8 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -412,6 +412,9 @@ class TransferEncoding(SortableParameter):
             else:
                 te = p.require_transfer_encoding()
                 telist.append(te)
+                p.parse_sp()
+                if not p.parse_separator(COMMA):
+                    p.require_end("transfer-encoding")
         return telist
 
     def to_bytes(self):
-- 
2.43.0


From 477c41edc41a409189eb232e6d94e58686e46f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 154/362] fix: media types, chunk headers, Allow and
 Accept-Ranges values can be hashed

---
 pyslet/http/messages.py | 4 ++--
 pyslet/http/params.py   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index b3e6b97..9bfccd4 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2545,7 +2545,7 @@ class AcceptRanges(params.SortableParameter):
         return self._ranges.__iter__()
 
     def sortkey(self):
-        return self._sorted
+        return tuple(self._sorted)
 
 
 class Allow(params.SortableParameter):
@@ -2587,7 +2587,7 @@ class Allow(params.SortableParameter):
         return self._methods.__iter__()
 
     def sortkey(self):
-        return self._sorted
+        return tuple(self._sorted)
 
 
 class CacheControl(params.Parameter):
diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 6f589b8..36ee530 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -446,7 +446,8 @@ class Chunk(SortableParameter):
             self.extensions = self.bparameters(extensions)
         else:
             self.extensions = {}
-        self._cx = sorted((p[0], p[1][1]) for p in dict_items(self.extensions))
+        self._cx = tuple(
+            sorted((p[0], p[1][1]) for p in dict_items(self.extensions)))
 
     @classmethod
     def from_str(cls, source):
@@ -502,7 +503,8 @@ class MediaType(SortableParameter):
             self.parameters = self.bparameters(parameters)
         else:
             self.parameters = {}
-        self._hp = sorted((p[0], p[1][1]) for p in dict_items(self.parameters))
+        self._hp = tuple(
+            sorted((p[0], p[1][1]) for p in dict_items(self.parameters)))
 
     @classmethod
     def from_str(cls, source):
-- 
2.43.0


From 1da1cfa3db06515fe2cf6dc3df3fad289c84bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 155/362] fix: an HTTP date that does not exist is reported as
 a syntax error

---
 pyslet/http/params.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 36ee530..086e590 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -907,11 +907,14 @@ class ParameterParser(WordParser):
                 century = 20
             else:
                 century = 19
-        tp = FullDate(
-            date=iso.Date(century=century, year=year, month=month + 1,
-                          day=day),
-            time=iso.Time(hour=hour, minute=minute, second=second,
-                          zdirection=0))
+        try:
+            tp = FullDate(
+                date=iso.Date(century=century, year=year, month=month + 1,
+                              day=day),
+                time=iso.Time(hour=hour, minute=minute, second=second,
+                              zdirection=0))
+        except iso.DateTimeError:
+            self.parser_error("valid date and time")
         d1, d2, d3, d4, dow = tp.date.get_week_day()
         if dow != dayofweek + 1:
             self.parser_error("matching day-of-week")
-- 
2.43.0


From 2160f6a0b735ef8a78dddf8f20359683f8506ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 156/362] fix: lists of language tags can be parsed

---
 pyslet/http/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 086e590..f73555c 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -726,7 +726,7 @@ class LanguageTag(SortableParameter):
             if t is not None:
                 tags.append(t)
             p.parse_sp()
-            if not p.parse_separator(","):
+            if not p.parse_separator(COMMA):
                 break
         p.parse_sp()
         p.require_end("language tag")
-- 
2.43.0


From 5af9bac1300f5c18247c0b53d224370d87f05c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 157/362] fix: language tags with empty components are rejected

---
 pyslet/http/params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index f73555c..4aba71e 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -1008,6 +1008,8 @@ class ParameterParser(WordParser):
         self.parse_sp()
         tag = [t.decode('ascii') for t in
                self.require_token("languaget-tag").split(b'-')]
+        if '' in tag:
+            self.parser_error("language sub-tag")
         self.parse_sp()
         return LanguageTag(tag[0], *tag[1:])
 
-- 
2.43.0


From e77beb8ae4a60a45be772ddf90fdabed69d7d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 158/362] fix: EntityTag has a working repr

---
 pyslet/http/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 4aba71e..85c02e3 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -780,7 +780,7 @@ class EntityTag(SortableParameter):
 
     def __repr__(self):
         return ("EntityTag(%s,%s)" %
-                (repr(self.tag), "True" if self.week else "False"))
+                (repr(self.tag), "True" if self.weak else "False"))
 
     def sortkey(self):
         return (self.tag, self.weak)
-- 
2.43.0


From 6ad2706d00e8ab2813fb44953114e568ce68cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 159/362] fix: a quality value may end with its decimal point

---
 pyslet/http/params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 85c02e3..32baae6 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -988,7 +988,8 @@ class ParameterParser(WordParser):
                 if is_digits(qsplit[0]):
                     q = float(qsplit[0])
             elif len(qsplit) == 2:
-                if is_digits(qsplit[0]) and is_digits(qsplit[1]):
+                if (is_digits(qsplit[0]) and
+                        (is_digits(qsplit[1]) or not qsplit[1])):
                     q = float("%.3f" % float(self.the_word))
             if q is None:
                 return None
-- 
2.43.0


From 744263aec32f1725c065a04f6202f7cf504a0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 160/362] fix: chunk extensions without a value are accepted

---
 pyslet/http/grammar.py | 15 ++++++++++++---
 pyslet/http/params.py  |  5 +++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index 6bd8477..758bb4f 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -210,8 +210,9 @@ def format_parameters(parameters):
         format.append(b'; ')
         p, v = parameters[k]
         format.append(p.encode('ascii'))
-        format.append(b'=')
-        format.append(quote_string(v, force=False))
+        if v is not None:
+            format.append(b'=')
+            format.append(quote_string(v, force=False))
     return b''.join(format)
 
 
@@ -847,7 +848,8 @@ class WordParser(ParserMixin):
         return self.parse_separator(SP)
 
     def parse_parameters(self, parameters, ignore_allsp=True,
-                         case_sensitive=False, qmode=None):
+                         case_sensitive=False, qmode=None,
+                         optional_values=False):
         """Parses a set of parameters
 
         parameters
@@ -871,6 +873,10 @@ class WordParser(ParserMixin):
             media-type parameters and Accept extension parameters.
             Defaults to None
 
+        optional_values
+            Pass True to accept parameters that have a name only, their
+            values are represented by None.  Defaults to False.
+
         Updates the parameters dictionary with the new parameter
         definitions. The key in the dictionary is the parameter name
         (converted to lower case if parameters are being dealt with case
@@ -902,6 +908,9 @@ class WordParser(ParserMixin):
                     raise BadSyntax
                 if ignore_allsp:
                     self.parse_sp()
+                if optional_values and not self.is_separator(EQUALS_SIGN):
+                    parameters[param_key] = (param_name, None)
+                    continue
                 self.require_separator(EQUALS_SIGN, "parameter")
                 if ignore_allsp:
                     self.parse_sp()
diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 32baae6..5fff7d9 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -447,7 +447,8 @@ class Chunk(SortableParameter):
         else:
             self.extensions = {}
         self._cx = tuple(
-            sorted((p[0], p[1][1]) for p in dict_items(self.extensions)))
+            sorted((p[0], p[1][1] is not None, p[1][1] or b'')
+                   for p in dict_items(self.extensions)))
 
     @classmethod
     def from_str(cls, source):
@@ -950,7 +951,7 @@ class ParameterParser(WordParser):
         self.parse_sp()
         size = self.require_hexinteger("chunk-size")
         extensions = {}
-        self.parse_parameters(extensions)
+        self.parse_parameters(extensions, optional_values=True)
         return Chunk(size, extensions)
 
     def require_media_type(self):
-- 
2.43.0


From 9cfe85cdf8e9166621d9fe20f92622f732083662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 161/362] fix: Cache-Control header values can be parsed

---
 pyslet/http/messages.py | 45 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 9bfccd4..124c191 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2633,7 +2633,7 @@ class CacheControl(params.Parameter):
     def from_str(cls, source):
         """Create a Cache-Control value from a *source* string."""
         p = HeaderParser(source)
-        cc = p.ParseCacheControl()
+        cc = p.require_cache_control()
         p.require_end("Cache-Control header")
         return cc
 
@@ -2651,7 +2651,7 @@ class CacheControl(params.Parameter):
             else:
                 result.append(b"%s=%s" % (
                               d, grammar.quote_string(
-                                  str(v).encode('ascii'), force=False)))
+                                  str(v).encode('iso-8859-1'), force=False)))
         return b", ".join(result)
 
     def __len__(self):
@@ -2912,6 +2912,47 @@ class HeaderParser(params.ParameterParser):
                 "Expected digits or * for instance-length")
         return ContentRange(first_byte, last_byte, total_len)
 
+    def require_cache_control(self):
+        """Parses a :py:class:`CacheControl` instance.
+
+        Raises BadSyntax if no directives were found.  The values of
+        directives that take delta-seconds are parsed to integers and
+        those that take a quoted list of field names to tuples of
+        character strings.  Other values are character strings."""
+        directives = []
+        while self.the_word is not None:
+            self.parse_sp()
+            if self.parse_separator(COMMA):
+                continue
+            d = self.require_token("cache-directive").decode('ascii').lower()
+            self.parse_sp()
+            if self.parse_separator(EQUALS_SIGN):
+                self.parse_sp()
+                if d in ("max-age", "max-stale", "min-fresh", "s-maxage"):
+                    v = self.require_integer("delta-seconds")
+                elif self.is_quoted_string():
+                    v = self.parse_quoted_string()
+                    if d in ("private", "no-cache"):
+                        p = HeaderParser(v)
+                        v = tuple(p.parse_tokenlist())
+                        p.require_end("field-name")
+                        if not v:
+                            self.parser_error("field-name")
+                    else:
+                        v = v.decode('iso-8859-1')
+                else:
+                    v = self.require_token(
+                        "cache-directive value").decode('ascii')
+                directives.append((d, v))
+            else:
+                directives.append(d)
+            self.parse_sp()
+            if not self.parse_separator(COMMA):
+                break
+        if not directives:
+            self.parser_error("cache-directive")
+        return CacheControl(*directives)
+
     def require_product_token_list(self):
         """Parses a list of product tokens
 
-- 
2.43.0


From 833d3c68d1ea7a902d83ba25a89e3d9e5b93acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 162/362] fix: token-based accept lists can be formatted

---
 pyslet/http/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 124c191..6f997c3 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2366,7 +2366,7 @@ class AcceptTokenList(params.Parameter):
         return al
 
     def to_bytes(self):
-        return b', '.join(str(i) for i in self._items)
+        return b', '.join(i.to_bytes() for i in self._items)
 
     def __len__(self):
         return len(self._items)
-- 
2.43.0


From 0c35700a06b0394b91156d12ff514b00c2907ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 163/362] fix: media ranges are compared without regard to case

---
 pyslet/http/messages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 6f997c3..8de18f8 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2113,13 +2113,13 @@ class MediaRange(params.MediaType):
         return mr
 
     def __repr__(self):
-        return ("MediaType(%s, %s, %s)" % (repr(self.type),
+        return ("MediaRange(%s, %s, %s)" % (repr(self.type),
                                            repr(self.subtype),
                                            repr(self.parameters)))
 
     def sortkey(self):
-        t = '~' if self.type == '*' else self.type
-        st = '~' if self.subtype == '*' else self.subtype
+        t = '~' if self.type == '*' else self.type.lower()
+        st = '~' if self.subtype == '*' else self.subtype.lower()
         # parameters sort before no parameters
         return (t, st, -len(self._hp), self._hp)
 
-- 
2.43.0


From 9892c00ff8d4880115d03db3aa836248f8c0cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 164/362] fix: null elements are allowed in accept lists

---
 pyslet/http/messages.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 8de18f8..dd7d92e 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2818,6 +2818,9 @@ class HeaderParser(params.ParameterParser):
         items = []
         self.parse_sp()
         while self.the_word:
+            if self.parse_separator(COMMA):
+                # null elements are allowed
+                continue
             a = self.parse_production(self.require_accept_item)
             if a is None:
                 break
@@ -2870,6 +2873,9 @@ class HeaderParser(params.ParameterParser):
         items = []
         self.parse_sp()
         while self.the_word:
+            if self.parse_separator(COMMA):
+                # null elements are allowed
+                continue
             a = self.parse_production(self.require_accept_token, cls.ItemClass)
             if a is None:
                 break
-- 
2.43.0


From bf312012af2a494f59d3232d60a61f370e521633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 165/362] fix: a Content-Length that is not a string of digits
 is a syntax error

---
 pyslet/http/messages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index dd7d92e..6ff049f 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1301,7 +1301,10 @@ class Message(PEP8Compatibility, object):
         If no Content-Length header was present None is returned."""
         field_value = self.get_header("Content-Length")
         if field_value is not None:
-            return int(field_value.strip())
+            field_value = field_value.strip()
+            if not grammar.is_digits(field_value):
+                raise grammar.BadSyntax("Content-Length")
+            return int(field_value)
         else:
             return None
 
-- 
2.43.0


From c66c0eba971be379477a4666137b29a5d70595a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 166/362] fix: a malformed Content-MD5 header is a syntax error

---
 pyslet/http/messages.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 6ff049f..a2132df 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1344,7 +1344,13 @@ class Message(PEP8Compatibility, object):
         of the Python's MD5 digest method."""
         field_value = self.get_header("Content-MD5")
         if field_value is not None:
-            return base64.b64decode(field_value.strip())
+            try:
+                digest = base64.b64decode(field_value.strip())
+            except ValueError:
+                raise grammar.BadSyntax("Content-MD5")
+            if len(digest) != 16:
+                raise grammar.BadSyntax("Content-MD5")
+            return digest
         else:
             return None
 
-- 
2.43.0


From ae172771feec8148df0b0dc5da25ad7f1b184352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 167/362] fix: removing the Upgrade header leaves the
 Connection header alone

---
 pyslet/http/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index a2132df..be80a82 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1535,7 +1535,7 @@ class Message(PEP8Compatibility, object):
                 connection.add("upgrade")
                 self.set_connection(connection)
         else:
-            self.set_header("Connection", None)
+            self.set_header("Upgrade", None)
 
     def get_host(self):
         return self.get_header("Host")
-- 
2.43.0


From 2b0085f830fbb45c28351ac090b0e88b57ec3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 168/362] fix: the Location header can be removed

---
 pyslet/http/messages.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index be80a82..9da9378 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2011,15 +2011,15 @@ class Response(Message):
             a :py:class:`pyslet.rfc2396.URI` instance or a string
             from which one can be parsed.  If None, the Location
             header is removed."""
-        if isinstance(location, str):
-            location = uri.URI.from_octets(location)
-        if not isinstance(location, uri.URI):
-            raise TypeError
-        if not location.is_absolute():
-            raise HTTPException("Location header must be an absolute URI")
         if location is None:
             self.set_header("Location", None)
         else:
+            if isinstance(location, str):
+                location = uri.URI.from_octets(location)
+            if not isinstance(location, uri.URI):
+                raise TypeError
+            if not location.is_absolute():
+                raise HTTPException("Location header must be an absolute URI")
             self.set_header("Location", str(location))
 
     def get_www_authenticate(self):
-- 
2.43.0


From 3b018c4dcf9e20761b9e847eaec61cb87597706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 169/362] fix: header values containing ISO-8859-1 text can be
 set

---
 pyslet/http/messages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 9da9378..9438caa 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -10,7 +10,7 @@ import zlib
 
 from .. import rfc2396 as uri
 from ..pep8 import PEP8Compatibility
-from ..py2 import force_bytes, is_string, dict_keys
+from ..py2 import force_bytes, is_string, is_unicode, dict_keys
 from ..py26 import *    # noqa
 from ..streams import BufferedStreamWrapper, io_blocked
 
@@ -1139,7 +1139,9 @@ class Message(PEP8Compatibility, object):
         append_mode==False (Default)
                 *field_value* replaces the existing value."""
         field_name = force_bytes(field_name)
-        field_value = force_bytes(field_value)
+        if is_unicode(field_value):
+            # consistent with the string form of header parameters
+            field_value = field_value.encode('iso-8859-1')
         with self.lock:
             fieldname_key = field_name.lower()
             if field_value is None:
-- 
2.43.0


From 0d3954d15342f2f3c3871ad4d4acc7d5d950d477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 170/362] fix: lists of challenges and challenges of any scheme
 can be parsed

---
 pyslet/http/auth.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 3941177..c477e00 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -328,25 +328,33 @@ class AuthorizationParser(ParameterParser):
         self.parse_sp()
         auth_scheme = self.require_token("auth scheme").decode('ascii')
         params = []
-        self.parse_sp()
+        first = True
         while self.the_word is not None:
-            param_name = self.parse_token().decode('ascii')
-            if param_name is not None:
+            savepos = self.pos
+            self.parse_sp()
+            param_name = None
+            while self.parse_separator(COMMA):
+                first = True
                 self.parse_sp()
-                self.require_separator(EQUALS_SIGN)
+            if first:
+                param_name = self.parse_token()
                 self.parse_sp()
-                if self.is_token():
-                    param_value = self.parse_token()
-                    forceq = False
-                else:
-                    param_value = self.require_production(
-                        self.parse_quoted_string(), "auth-param value")
-                    forceq = True
-                params.append((param_name, param_value, forceq))
-            self.parse_sp()
-            if not self.parse_separator(COMMA):
+            if param_name is None or not self.parse_separator(EQUALS_SIGN):
+                # this is the end of the challenge, or the next challenge
+                self.setpos(savepos)
                 break
+            self.parse_sp()
+            if self.is_token():
+                param_value = self.parse_token()
+                forceq = False
+            else:
+                param_value = self.require_production(
+                    self.parse_quoted_string(), "auth-param value")
+                forceq = True
+            params.append(
+                (param_name.decode('ascii'), param_value, forceq))
+            first = False
         if auth_scheme.lower() == "basic":
             return BasicChallenge(*params)
         else:
-            return Challenge(*params)
+            return Challenge(auth_scheme, *params)
-- 
2.43.0


From 59b918b1de4df1af51cb26865672c075c377f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 171/362] fix: passwords in basic credentials may contain
 colons and bad base64 is a syntax error

---
 pyslet/http/auth.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index c477e00..51efe91 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -4,7 +4,12 @@ import base64
 
 from ..py2 import is_string, range3
 from .. import rfc2396 as uri
-from .grammar import quote_string, WordParser, COMMA, EQUALS_SIGN
+from .grammar import (
+    BadSyntax,
+    COMMA,
+    EQUALS_SIGN,
+    quote_string,
+    WordParser)
 from .params import Parameter, ParameterParser
 
 
@@ -218,12 +223,15 @@ class BasicCredentials(Credentials):
         self.path_prefixes = []
 
     def set_basic_credentials(self, basic_credentials):
-        credentials = base64.b64decode(basic_credentials).split(b':')
+        try:
+            credentials = base64.b64decode(basic_credentials).split(b':', 1)
+        except ValueError:
+            raise BadSyntax("basic-credentials")
         if len(credentials) == 2:
             self.userid = credentials[0].decode('iso-8859-1')
             self.password = credentials[1].decode('iso-8859-1')
         else:
-            raise ValueError(basic_credentials)
+            raise BadSyntax("basic-credentials")
 
     def match(self, challenge=None, url=None):
         if challenge is not None:
-- 
2.43.0


From 9056b4ba8e0a667c208205b1336f1e2bcc7d57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 172/362] fix: accept extensions without a value are accepted

---
 pyslet/http/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 9438caa..d23ea78 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2817,7 +2817,7 @@ class HeaderParser(params.ParameterParser):
             if qvalue is None:
                 raise grammar.BadSyntax(
                     "Unrecognized q-value: %s" % repr(self.the_word))
-            self.parse_parameters(extensions)
+            self.parse_parameters(extensions, optional_values=True)
         else:
             qvalue = 1.0
         return AcceptItem(range, qvalue, extensions)
-- 
2.43.0


From 69b9004be1e23216b39dd952b3e1b0a0a6e47209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:46 +0000
Subject: [PATCH 173/362] fix: HTTP dates at the turn of a century are
 formatted with the right year

---
 pyslet/http/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 5fff7d9..c0c6fab 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -348,7 +348,7 @@ class FullDate(Parameter, iso.TimePoint):
         z = self.shift_zone(0)
         (century, year, month, day,
          hour, minute, second) = z.get_calendar_time_point()
-        century, decade, dyear, week, dayofweek = z.date.get_week_day()
+        dayofweek = z.date.get_week_day()[-1]
         return b"%s, %02i %s %04i %02i:%02i:%02i GMT" % (
             ParameterParser.wkday[dayofweek - 1],
             day,
-- 
2.43.0


From 4329601cf9b0148a29c4ca474272ee80200a07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:11 +0000
Subject: [PATCH 174/362] fix: Response.recv_start accepts any text as the
 reason phrase

---
 pyslet/http/messages.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index d23ea78..151e257 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1912,16 +1912,23 @@ class Response(Message):
         self.reason = None
 
     def recv_start(self, line):
-        # Read the status line
-        pstatus = params.ParameterParser(line[:-2], ignore_sp=False)
-        self.protocol = pstatus.parse_production(pstatus.require_http_version)
-        pstatus.parse_sp()
-        if pstatus.is_integer():
-            self.status = pstatus.parse_integer()
-        else:
-            self.status = 0
-        pstatus.parse_sp()
-        self.reason = pstatus.parse_remainder().decode('iso-8859-1')
+        # Read the status line, the reason phrase can be any text
+        if line[-2:] == grammar.CRLF:
+            line = line[:-2]
+        items = line.split(b' ', 2)
+        try:
+            if len(items) < 2:
+                raise ValueError
+            self.protocol = params.HTTPVersion.from_str(items[0])
+            if not items[1].isdigit():
+                raise ValueError
+            self.status = int(items[1])
+        except ValueError:
+            raise ProtocolError("Badly formed Status-Line: %s" % repr(line))
+        if len(items) > 2:
+            self.reason = items[2].decode('iso-8859-1')
+        else:
+            self.reason = ''
 
     def recv_transferlength(self):
         self.transferchunked = False
-- 
2.43.0


From 07628624b618c5ffbde9a3fdbba0f600655cc034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:11 +0000
Subject: [PATCH 175/362] fix: a message body read until the connection closes
 completes the message

---
 pyslet/http/messages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 151e257..8f9636a 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -867,8 +867,11 @@ class Message(PEP8Compatibility, object):
                         # we're receiving all data
                         self.recv_buffer = data
                     self._recv_buffered()
+                elif self.transferlength is None:
+                    # end of data, the body is complete
+                    self.transfermode = None
                 else:
-                    self.transfer_mode = None
+                    raise ProtocolError("message body cut short")
             elif self.transfermode == self.BLOCKED_MODE:
                 self._recv_buffered()
             elif self.transfermode == self.CHUNK_END_MODE:
-- 
2.43.0


From 81395909d04cd2dd5316e9879b7191bfc1876d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 176/362] fix: GzipDecoder reads data of several members and
 reports truncated or corrupt data

---
 pyslet/http/messages.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 8f9636a..486e678 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -81,6 +81,21 @@ class GzipDecoder(io.RawIOBase):
         self.dst = dst
         self.buffstr = None
         self.decoder = zlib.decompressobj(31)
+        self.started = False
+
+    def _decode(self, zdata):
+        # gzip data may consist of more than one member
+        result = []
+        self.started = True
+        try:
+            while zdata:
+                if getattr(self.decoder, 'eof', self.decoder.unused_data):
+                    self.decoder = zlib.decompressobj(31)
+                result.append(self.decoder.decompress(zdata))
+                zdata = self.decoder.unused_data
+        except zlib.error as e:
+            raise IOError("bad gzip data: %s" % str(e))
+        return b''.join(result)
 
     def readable(self):
         return False
@@ -91,6 +106,8 @@ class GzipDecoder(io.RawIOBase):
     def flush(self):
         # flushes any remnants to the stream
         if self.decoder:
+            if self.started and not getattr(self.decoder, 'eof', True):
+                raise IOError("gzip data cut short")
             if self.buffstr is not None:
                 self.buffstr = self.buffstr + self.decoder.flush()
             else:
@@ -131,7 +148,7 @@ class GzipDecoder(io.RawIOBase):
                     self.buffstr = None
             elif zdata:
                 # decompress the data
-                self.buffstr = self.decoder.decompress(zdata)
+                self.buffstr = self._decode(zdata)
                 wbytes = len(zdata)
                 zdata = None
             else:
-- 
2.43.0


From 3a4da9cdc2828dd3c2bdccc6f6b92918a4b45a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:11 +0000
Subject: [PATCH 177/362] fix: a gzip transfer coding is applied and removed
 when the message is not chunked

---
 pyslet/http/messages.py | 47 ++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 486e678..a73068c 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -600,19 +600,18 @@ class Message(PEP8Compatibility, object):
                 # read until end of connection
                 self.transferchunked = False
             self.transferlength = None
-            if len(encoding) > 1:
-                for enc in encoding:
-                    if enc.token == "gzip":
-                        # wrap the body in a gzip compression wrapper
-                        self.transferbody = GzipEncoder(self.transferbody)
-                    elif enc.token == "identity":
-                        continue
-                    elif enc.token == "chunked":
-                        # always the last encoding
-                        break
-                    else:
-                        raise NotImplementedError(
-                            "Unsupported transfer encoding %s" % enc.token)
+            for enc in encoding:
+                if enc.token == "gzip":
+                    # wrap the body in a gzip compression wrapper
+                    self.transferbody = GzipEncoder(self.transferbody)
+                elif enc.token == "identity":
+                    continue
+                elif enc.token == "chunked":
+                    # always the last encoding
+                    break
+                else:
+                    raise NotImplementedError(
+                        "Unsupported transfer encoding %s" % enc.token)
             # overrides any Content-Length setting
             return
         # If there is a Content-Length header
@@ -1050,18 +1049,18 @@ class Message(PEP8Compatibility, object):
             else:
                 self.transferchunked = False
             self.transferlength = None
-            if len(encoding) > 1:
+            if self.transferchunked:
                 encoding = encoding[:-1]
-                encoding.reverse()
-                for enc in encoding:
-                    if enc.token == "gzip":
-                        # wrap the body in a gzip decoding wrapper
-                        self.transferbody = GzipDecoder(self.transferbody)
-                    elif enc.token == "identity":
-                        continue
-                    else:
-                        raise NotImplementedError(
-                            "Unsupported transfer encoding %s" % enc.token)
+            # each wrapper decodes the output of the previous one
+            for enc in encoding:
+                if enc.token == "gzip":
+                    # wrap the body in a gzip decoding wrapper
+                    self.transferbody = GzipDecoder(self.transferbody)
+                elif enc.token == "identity":
+                    continue
+                else:
+                    raise NotImplementedError(
+                        "Unsupported transfer encoding %s" % enc.token)
             # overrides any Content-Length setting
             return
         # If there is a Content-Length header
-- 
2.43.0


From a5269661430b06edca46f0d7eea810acfcb3261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:40 +0000
Subject: [PATCH 178/362] fix: a message whose decoded body blocks at the end
 is still completed

---
 pyslet/http/messages.py | 42 ++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index a73068c..fb8ec26 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -126,6 +126,8 @@ class GzipDecoder(io.RawIOBase):
                 self.buffstr = self.buffstr[n:]
             else:
                 self.buffstr = None
+        if isinstance(self.dst, io.IOBase):
+            self.dst.flush()
 
     def write(self, zdata):
         wbytes = None
@@ -733,6 +735,7 @@ class Message(PEP8Compatibility, object):
             self.tboundary = None
             self.tboundary_match = None
             self.transferPos = 0
+            self.transferFlush = False
             self.transferDone = False
 
     #: recv_mode constant for a set of header lines terminated by CRLF,
@@ -885,11 +888,14 @@ class Message(PEP8Compatibility, object):
                     self._recv_buffered()
                 elif self.transferlength is None:
                     # end of data, the body is complete
-                    self.transfermode = None
+                    self._recv_flush()
                 else:
                     raise ProtocolError("message body cut short")
             elif self.transfermode == self.BLOCKED_MODE:
-                self._recv_buffered()
+                if self.transferFlush:
+                    self._recv_flush()
+                else:
+                    self._recv_buffered()
             elif self.transfermode == self.CHUNK_END_MODE:
                 # must be a naked CRLF
                 if data != grammar.CRLF:
@@ -898,14 +904,7 @@ class Message(PEP8Compatibility, object):
             elif self.transfermode == self.CHUNK_TRAILER_MODE:
                 for line in data:
                     self._recv_header(line)
-                try:
-                    self.transferbody.flush()
-                    self.transfermode = None
-                except IOError as e:
-                    if io_blocked(e):
-                        self.transfermode = self.BLOCKED_MODE
-                    else:
-                        raise
+                self._recv_flush()
             else:
                 raise HTTPException(
                     "recv_line when in unknown mode: %i" % self.transfermode)
@@ -980,19 +979,24 @@ class Message(PEP8Compatibility, object):
             self.transfermode = self.DATA_MODE
         elif self.transferPos >= self.transferlength:
             # not chunked, defined message body length
-            # we need a flushing mode here
-            try:
-                self.transferbody.flush()
-                self.transfermode = None
-            except IOError as e:
-                if io_blocked(e):
-                    self.transfermode = self.BLOCKED_MODE
-                else:
-                    raise
+            self._recv_flush()
         else:
             # not chunked, still reading
             self.transfermode = self.DATA_MODE
 
+    def _recv_flush(self):
+        # the whole body has been received: flush it, possibly blocking
+        try:
+            self.transferbody.flush()
+            self.transferFlush = False
+            self.transfermode = None
+        except IOError as e:
+            if io_blocked(e):
+                self.transferFlush = True
+                self.transfermode = self.BLOCKED_MODE
+            else:
+                raise
+
     def handle_headers(self):
         """Hook for processing the message headers
 
-- 
2.43.0


From 790d64154e35bd6a3d06ae53eb9aa2f47ae90c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 179/362] fix: send_body always returns binary data and reports
 a body shorter than its declared length

---
 pyslet/http/messages.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index fb8ec26..beb7603 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -690,13 +690,15 @@ class Message(PEP8Compatibility, object):
                         self.transferPos += len(data)
                         self.body_started = True
                         return data
-                    else:
+                    elif self.transferlength is None:
                         # end of the message body (read forever mode)
                         self.transferDone = True
-                        return ''
+                        return b''
+                    else:
+                        raise HTTPException("Too little data in entity body")
                 else:
                     self.transferDone = True
-                    return ''
+                    return b''
 
     START_MODE = 1
     HEADER_MODE = 2
-- 
2.43.0


From 52357779f5e79192124f4a930b5479ee17996676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:03 +0000
Subject: [PATCH 180/362] fix: a buffered request body is resent from its start

---
 pyslet/http/messages.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index beb7603..ed55017 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1626,6 +1626,7 @@ class Request(Message):
                     # small enough to be buffered, try again
                     logging.warning(
                         "Request buffered to send to HTTP/1.0 server")
+                    self.body_start = self.entity_body.tell()
                     self.body_len = self.entity_body.length
                     super(Request, self).send_transferlength()
                 else:
-- 
2.43.0


From f75e0a39c015c4cffa3ed9213a9a6128c75c2599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 181/362] fix: an absent entity body sent with the chunked
 transfer coding is terminated

---
 pyslet/http/messages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index ed55017..777a0ca 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -653,6 +653,10 @@ class Message(PEP8Compatibility, object):
             return b''
         if self.transferbody is None:
             self.transferDone = True
+            if self.transferchunked:
+                # an empty body still needs the last chunk
+                return (params.Chunk().to_bytes() + grammar.CRLF +
+                        grammar.CRLF)
             return b''
         else:
             # We're reading from a stream
-- 
2.43.0


From 3138a0378b58eeb46c81d1d6ea30f38a8a054758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 182/362] fix: a response without a body does not declare a
 length and a transfer coding

---
 pyslet/http/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 777a0ca..e1bd21c 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1926,7 +1926,7 @@ class Response(Message):
                 self.transferbody = self.entity_body
                 self.clear_keep_alive()
                 return
-        if self.entity_body is None:
+        if self.entity_body is None and self.get_transfer_encoding() is None:
             # no body, the client expects a content length at least
             self.set_content_length(0)
             self.transferchunked = False
-- 
2.43.0


From 7d72d89ad8912bc2b77f5ae43996cb5c62cea6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 183/362] fix: ChunkedReader rejects malformed chunks

---
 pyslet/http/messages.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index e1bd21c..431f74a 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -169,9 +169,10 @@ class ChunkedReader(io.RawIOBase):
     def _read_chunksize(self):
         # trailing CRLF needs to be read:
         if self.chunk_left == 0:
-            self.src.readline()
-        p = params.ParameterParser(self.src.readline().strip())
-        self.chunk_left = int(p.parse_token(), 16)
+            if self.src.readline().strip():
+                raise ProtocolError("chunk-data termination error")
+        self.chunk_left = params.Chunk.from_str(
+            self.src.readline().strip()).size
         if self.chunk_left == 0:
             self.eof = True
             # read the trailing headers and CRLF
-- 
2.43.0


From 55526923f44c4bd3c6a74655053dc355fb58f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:04 +0000
Subject: [PATCH 184/362] fix: an absent entity body can be resent

---
 pyslet/http/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 431f74a..dcd796a 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -533,7 +533,7 @@ class Message(PEP8Compatibility, object):
                     self.send_protocol <= params.HTTP_1p0):
                 # we don't do any keep-alive for HTTP/1.0
                 self.clear_keep_alive()
-            if self.body_started:
+            if self.body_started and self.entity_body is not None:
                 if self.body_start is not None:
                     # we've been here before, seek back
                     self.entity_body.seek(self.body_start)
-- 
2.43.0


From a494ca983b9f80b417db0402d09c218e539ab6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 185/362] fix: pipelined responses received together are all
 processed

---
 pyslet/http/client.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 3db3ac5..2a7f6d3 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -179,6 +179,8 @@ class Connection(SortableMixin):
         self.sent_bytes = 0
         self.recv_buffer = []
         self.recv_buffer_size = 0
+        # True if recv_buffer may already contain the next response
+        self.recv_ready = False
 
     def thread_target_key(self):
         return (self.thread_id, self.scheme, self.host, self.port)
@@ -360,6 +362,7 @@ class Connection(SortableMixin):
                                 self.response = self.response_queue[0]
                                 self.response_queue = self.response_queue[1:]
                                 self.response.start_receiving()
+                                self.recv_ready = self.recv_buffer_size > 0
                             elif self.response:
                                 self.response = None
                                 if self.request_mode == self.CLOSE_WAIT:
@@ -661,6 +664,7 @@ class Connection(SortableMixin):
         self.sent_bytes = 0
         self.recv_buffer = []
         self.recv_buffer_size = 0
+        self.recv_ready = False
         self.request_mode = self.REQ_READY
 
     def kill(self):
@@ -814,6 +818,10 @@ class Connection(SortableMixin):
         #   We ask the response what it is expecting and try and
         #   satisfy that, we return True when the response has been
         #   received completely, False otherwise"""
+        if self.recv_ready:
+            # process what we've already got before reading any more
+            self.recv_ready = False
+            return self._recv_response()
         err = None
         try:
             data = self.socket.recv(io.DEFAULT_BUFFER_SIZE)
@@ -848,6 +856,9 @@ class Connection(SortableMixin):
                           "data on ready to read socket", self.host)
             self.close()
             return (True, False, False)
+        return self._recv_response()
+
+    def _recv_response(self):
         # Now loop until we can't satisfy the response anymore (or the response
         # is done)
         while self.response is not None:
@@ -872,9 +883,6 @@ class Connection(SortableMixin):
                     lines = [l + grammar.CRLF for l in
                              data[0:pos + 2].split(grammar.CRLF)]
                     data = data[pos + 4:]
-                elif err:
-                    self.close(err)
-                    return (True, False, False)
                 elif pos < 0:
                     # We didn't find the data we wanted this time
                     break
@@ -894,9 +902,6 @@ class Connection(SortableMixin):
                 if pos >= 0:
                     line = data[0:pos + 2]
                     data = data[pos + 2:]
-                elif err:
-                    self.close(err)
-                    return (True, False, False)
                 else:
                     # We didn't find the data we wanted this time
                     break
-- 
2.43.0


From 4e201ab19a957f058ea9adf4a54255cb7a0d0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 186/362] fix: a response cut short by the server or an error
 is not reported as complete

---
 pyslet/http/client.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 2a7f6d3..93f81e4 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -718,6 +718,7 @@ class Connection(SortableMixin):
                       self.MODE_STRINGS[self.request_mode])
         if self.response:
             # Queue a response as we're still handling the last one!
+            request.response.status = None
             self.response_queue.append(request.response)
         else:
             # if there is no response, we may have been idle for some
@@ -822,7 +823,7 @@ class Connection(SortableMixin):
             # process what we've already got before reading any more
             self.recv_ready = False
             return self._recv_response()
-        err = None
+        recv_err = None
         try:
             data = self.socket.recv(io.DEFAULT_BUFFER_SIZE)
             self.last_rw = time.time()
@@ -837,6 +838,7 @@ class Connection(SortableMixin):
                 # we're going to swallow this error, log it
                 logging.error("socket.recv raised %s", str(err))
                 data = None
+                recv_err = err
         except IOError as err:
             if io_blocked(err):
                 # we're blocked on recv
@@ -845,6 +847,7 @@ class Connection(SortableMixin):
             # getting an error here so this error could be fairly benign.
             logging.warning("socket.recv raised %s", str(err))
             data = None
+            recv_err = err
         logging.debug("Reading from %s: \n%s", self.host, repr(data))
         if data:
             nbytes = len(data)
@@ -854,7 +857,29 @@ class Connection(SortableMixin):
         else:
             logging.debug("%s: closing connection after recv returned no "
                           "data on ready to read socket", self.host)
-            self.close()
+            if self.response.status is None:
+                # hung up before sending anything (of this response)
+                self.close()
+            elif (recv_err is None and self.response.recv_mode() ==
+                    messages.Message.RECV_ALL):
+                # the server signals the end of the response
+                response = self.response
+                response.recv(b'')
+                while response.recv_mode() == 0:
+                    response.recv(None)
+                if self.response is response:
+                    if self.response_queue:
+                        self.response = self.response_queue[0]
+                        self.response_queue = self.response_queue[1:]
+                    else:
+                        self.response = None
+                self.close()
+            else:
+                # the response is incomplete
+                if recv_err is None:
+                    recv_err = messages.HTTPException(
+                        "server hung up before the response was complete")
+                self.close(recv_err)
             return (True, False, False)
         return self._recv_response()
 
@@ -1872,7 +1897,7 @@ class ClientRequest(messages.Request):
         # called when the response has been received
         self.status = self.response.status
         self.error = err
-        if self.status is None:
+        if err is not None or self.status is None:
             logging.error("Error receiving response, %s", str(self.error))
             self.status = 0
             self.finished()
-- 
2.43.0


From bcef8cc3d8c7297340bc7a724619136bbec50eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 187/362] fix: a final response received before the request has
 been sent

---
 pyslet/http/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 93f81e4..0c0e7b2 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1948,13 +1948,13 @@ class ClientRequest(messages.Request):
                 # finished with us
                 if self.status >= 300:
                     # Some type of error condition....
-                    if isinstance(self.send_body(), str):
+                    if self.send_body() != b'':
                         # There was more data to send in the request but we
                         # don't plan to send it so we have to hang up!
                         self.connection.request_disconnect()
                     # else, we were finished anyway... the connection will
                     # discover this itself
-                elif self.response >= 200:
+                elif self.status >= 200:
                     # For 2xx result codes we let the connection finish
                     # spooling and disconnect from us when it is done
                     pass
-- 
2.43.0


From 7a07964ce2187c0dd4ebc220f07344f952b1f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 188/362] fix: a request is not finished by an interim response

---
 pyslet/http/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 0c0e7b2..0bedb33 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1943,6 +1943,9 @@ class ClientRequest(messages.Request):
                         # We're not finished though, wait for the final
                         # response to be sent. No need to reset as the
                         # 100 response should not have a body
+                        self.status = 0
+                elif self.response.status != 101:
+                    self.status = 0
             elif self.connection:
                 # The response was received before the connection
                 # finished with us
-- 
2.43.0


From e331cc12271f917e9ff13566db694f03066f257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 189/362] fix: a request that cannot be sent is finished with
 the error

---
 pyslet/http/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 0bedb33..0222e46 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -703,8 +703,17 @@ class Connection(SortableMixin):
         # has been accepted for processing, False otherwise.
         self.request = request
         self.request.connect(self, self.buffered_bytes)
-        self.request.start_sending(self.protocol)
-        headers = self.request.send_start() + self.request.send_header()
+        try:
+            self.request.start_sending(self.protocol)
+            headers = self.request.send_start() + self.request.send_header()
+        except Exception as err:
+            # this request can't be sent but others are not affected
+            logging.error("%s: request failed with %s", self.host, str(err))
+            self.request = None
+            request.connection = None
+            request.response.status = None
+            request.response.handle_disconnect(err)
+            return False
         logging.debug("Sending to %s: \n%s", self.host, headers)
         self.send_buffer.append(headers)
         self.buffered_bytes += len(headers)
-- 
2.43.0


From 7ea14b906f84fb70e95742807f73fd205dfa5f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 190/362] fix: waiting for a continue response on connections
 without a timeout, and thread_task's own timeout

---
 pyslet/http/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 0222e46..8c5daea 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -393,7 +393,8 @@ class Connection(SortableMixin):
                     break
                 self.manager._deactivate_connection(self)
                 break
-        if (rbusy or wbusy) and (tbusy is None or tbusy > self.timeout):
+        if ((rbusy or wbusy) and self.timeout is not None and
+                (tbusy is None or tbusy > self.timeout)):
             # waiting for i/o, make sure the timeout is capped
             tbusy = self.timeout
         if rbusy:
@@ -1484,9 +1485,8 @@ class Client(PEP8Compatibility, object):
                 pass
         if readers or writers:
             if timeout is not None:
-                if wait_time is not None:
-                    if timeout < wait_time:
-                        wait_time = timeout
+                if wait_time is None or timeout < wait_time:
+                    wait_time = timeout
             try:
                 logging.debug("thread_task waiting for select: "
                               "readers=%s, writers=%s, timeout=%s",
-- 
2.43.0


From 00965515ce96f34062edca3224ddaeca84c54d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 191/362] fix: unexpected data received after a response is not
 used for the next one

---
 pyslet/http/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 8c5daea..ca4fda4 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -742,11 +742,14 @@ class Connection(SortableMixin):
     def _check_socket(self):
         #   Checks to see if the socket has been shutdown
         logging.debug("_check_socket: attempting to read two bytes...")
-        data = None
+        data = b''.join(self.recv_buffer)
+        self.recv_buffer = []
+        self.recv_buffer_size = 0
         try:
             # we're not expecting any data, read two bytes just in case
             # we get a stray CRLF that we're supposed to be ignoring.
-            data = self.socket.recv(2)
+            if not data:
+                data = self.socket.recv(2)
         except ssl.SSLError as err:
             if (err.args[0] == ssl.SSL_ERROR_WANT_READ or
                     err.args[0] == ssl.SSL_ERROR_WANT_WRITE):
-- 
2.43.0


From ce19f2e125a0a5f37bc82751bb45c6b2adf20679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 192/362] fix: Connection.new_socket reports failures to
 resolve a host or create a socket

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index ca4fda4..adb2d0d 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1003,6 +1003,7 @@ class Connection(SortableMixin):
         try:
             for target in self.manager.dnslookup(self.host, self.port):
                 family, socktype, protocol, canonname, address = target
+                snew = None
                 try:
                     snew = socket.socket(family, socktype, protocol)
                     snew.connect(address)
@@ -1015,7 +1016,7 @@ class Connection(SortableMixin):
         except socket.gaierror as e:
             snew = None
             raise messages.HTTPException(
-                "failed to connect to %s (%s)" % (self.host, e[1]))
+                "failed to connect to %s (%s)" % (self.host, e.args[1]))
         if not snew:
             raise messages.HTTPException("failed to connect to %s" % self.host)
         else:
-- 
2.43.0


From cdaadcf83fc62c14016bed8b6521afa0c21f1098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 193/362] fix: a connection killed while it has no socket is
 never reconnected

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index adb2d0d..c2f7c89 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -697,7 +697,7 @@ class Connection(SortableMixin):
                     # ignore errors, most likely the server has stopped
                     # listening
                     pass
-                self.closed = True
+            self.closed = True
 
     def _start_request(self, request):
         # Starts processing the request.  Returns True if the request
-- 
2.43.0


From 754d3cd14664c712428c6dbb9190e178fbbb18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:33 +0000
Subject: [PATCH 194/362] fix: a 401 response is answered at most once and bad
 Location or WWW-Authenticate headers do not fail the connection

---
 pyslet/http/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index c2f7c89..7f09c60 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2011,20 +2011,29 @@ class ClientRequest(messages.Request):
             # request other than GET or HEAD, the user agent MUST NOT
             # automatically redirect the request unless it can be
             # confirmed by the user
-            location = self.response.get_location()
+            try:
+                location = self.response.get_location()
+            except ValueError as e:
+                logging.warning("Ignoring Location after %s", str(e))
+                location = None
             if location:
                 if not location.host:
                     # This is an error but a common one (thanks IIS!)
                     location = location.resolve(self.url)
                 self.resend(location)
         elif self.status == 401:
-            challenges = self.response.get_www_authenticate()
+            try:
+                challenges = self.response.get_www_authenticate() or ()
+            except ValueError as e:
+                logging.warning("Ignoring challenges after %s", str(e))
+                challenges = ()
             for c in challenges:
                 c.protectionSpace = self.url.get_canonical_root()
                 self.tried_credentials = self.manager.find_credentials(c)
                 if self.tried_credentials:
                     self.set_authorization(self.tried_credentials)
                     self.resend()  # to the same URL
+                    break
 
 
 class ClientResponse(messages.Response):
-- 
2.43.0


From 8b00e6c3d0755d441f41e07159051e140eef8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 195/362] fix: requests other than GET and HEAD are not
 repeated when redirected

---
 pyslet/http/client.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 7f09c60..d403302 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1843,6 +1843,16 @@ class ClientRequest(messages.Request):
         logging.info("Resending request to: %s", str(self.url))
         self.manager.queue_request(self)
 
+    def _switch_to_get(self):
+        self.method = "GET"
+        self.entity_body = None
+        self.body_start = None
+        self.body_len = None
+        self.body_started = False
+        for name in ("Content-Length", "Content-Type", "Transfer-Encoding",
+                     "Expect"):
+            self.set_header(name, None)
+
     def set_client(self, client):
         """Called when we are queued for processing.
 
@@ -2005,11 +2015,11 @@ class ClientRequest(messages.Request):
             self.tried_credentials = None
         if (self.auto_redirect and self.status >= 300 and
                 self.status <= 399 and
-                (self.status != 302 or
+                (self.status not in (301, 302, 307) or
                  self.method.upper() in ("GET", "HEAD"))):
-            # If the 302 status code is received in response to a
-            # request other than GET or HEAD, the user agent MUST NOT
-            # automatically redirect the request unless it can be
+            # If the 301, 302 or 307 status code is received in response
+            # to a request other than GET or HEAD, the user agent MUST
+            # NOT automatically redirect the request unless it can be
             # confirmed by the user
             try:
                 location = self.response.get_location()
@@ -2020,6 +2030,10 @@ class ClientRequest(messages.Request):
                 if not location.host:
                     # This is an error but a common one (thanks IIS!)
                     location = location.resolve(self.url)
+                if (self.status == 303 and
+                        self.method.upper() not in ("GET", "HEAD")):
+                    # the new URL should be retrieved using a GET method
+                    self._switch_to_get()
                 self.resend(location)
         elif self.status == 401:
             try:
-- 
2.43.0


From c4dce493799ba64bb192dbb19bb85a2212881d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 196/362] fix: relative Location headers are resolved,
 locations that are not HTTP are not followed

---
 pyslet/http/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index d403302..9131777 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2027,9 +2027,12 @@ class ClientRequest(messages.Request):
                 logging.warning("Ignoring Location after %s", str(e))
                 location = None
             if location:
-                if not location.host:
+                if not location.is_absolute():
                     # This is an error but a common one (thanks IIS!)
                     location = location.resolve(self.url)
+                if not isinstance(location, params.HTTPURL):
+                    logging.warning("Ignoring Location %s", str(location))
+                    return
                 if (self.status == 303 and
                         self.method.upper() not in ("GET", "HEAD")):
                     # the new URL should be retrieved using a GET method
-- 
2.43.0


From b6a803d166eec1ecb55f31b7978d4b2c7d1cbbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:24 +0000
Subject: [PATCH 197/362] fix: following a redirect or answering a challenge
 costs no retry and no delay

---
 pyslet/http/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 9131777..1af04f7 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1759,7 +1759,7 @@ class ClientRequest(messages.Request):
         self.nretries = 0
         self.retry_time = 0
         self._rt1 = 0
-        self._rt2 = min_retry_time
+        self._rt2 = self.min_retry_time = min_retry_time
         #: the associated :py:class:`ClientResponse`
         self.response = ClientResponse(request=self)
         # the credentials we're using in this request, this attribute is
@@ -1831,6 +1831,11 @@ class ClientRequest(messages.Request):
     def resend(self, url=None):
         self.status = 0
         self.error = None
+        # this is a new request, not a retry of a failed one
+        self.nretries = 0
+        self.retry_time = 0
+        self._rt1 = 0
+        self._rt2 = self.min_retry_time
         if url is not None:
             # if the host, port or scheme is different, strip any
             # Authorization header
-- 
2.43.0


From ca06a4bee4c7b7bc38e0b5c155f86185293b1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:51 +0000
Subject: [PATCH 198/362] fix: a client does not follow an endless chain of
 redirects

---
 pyslet/http/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 1af04f7..681be3c 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -46,6 +46,9 @@ class ConnectionClosed(messages.HTTPException):
     pass
 
 
+#: the number of redirects that are followed for any one request
+MAX_REDIRECTS = 20
+
 USER_AGENT = params.ProductToken('pyslet', info.version)
 """A :py:class:`ProductToken` instance
 
@@ -1753,6 +1756,8 @@ class ClientRequest(messages.Request):
             self.res_bodystream = None
         #: whether or not auto redirection is in force for 3xx responses
         self.auto_redirect = auto_redirect
+        #: the number of redirects followed so far
+        self.nredirects = 0
         #: the maximum number of retries we'll attempt
         self.max_retries = max_retries
         #: the number of retries we've had
@@ -2020,6 +2025,7 @@ class ClientRequest(messages.Request):
             self.tried_credentials = None
         if (self.auto_redirect and self.status >= 300 and
                 self.status <= 399 and
+                self.nredirects < MAX_REDIRECTS and
                 (self.status not in (301, 302, 307) or
                  self.method.upper() in ("GET", "HEAD"))):
             # If the 301, 302 or 307 status code is received in response
@@ -2042,6 +2048,7 @@ class ClientRequest(messages.Request):
                         self.method.upper() not in ("GET", "HEAD")):
                     # the new URL should be retrieved using a GET method
                     self._switch_to_get()
+                self.nredirects += 1
                 self.resend(location)
         elif self.status == 401:
             try:
-- 
2.43.0


From 3548c505196d6e34b43b3a2f02852e8169b95b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 199/362] fix: set_authorization(None) removes the header
 instead of sending None

---
 pyslet/http/messages.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index dcd796a..ddae9cb 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1227,8 +1227,13 @@ class Message(PEP8Compatibility, object):
         """Sets the "Authorization" header
 
         credentials
-                a :py:class:`~pyslet.http.auth.Credentials` instance"""
-        self.set_header("Authorization", str(credentials))
+                a :py:class:`~pyslet.http.auth.Credentials` instance
+
+        If credentials is None the Authorization header is removed."""
+        if credentials is None:
+            self.set_header("Authorization", None)
+        else:
+            self.set_header("Authorization", str(credentials))
 
     def get_cache_control(self):
         """Returns an :py:class:`CacheControl` instance or None if no
-- 
2.43.0


From a6374c06da43950a8ebe987ecff7b6d7d58d79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:25 +0000
Subject: [PATCH 200/362] fix: locations that cannot be requested are not
 followed

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 681be3c..eee635c 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2041,7 +2041,8 @@ class ClientRequest(messages.Request):
                 if not location.is_absolute():
                     # This is an error but a common one (thanks IIS!)
                     location = location.resolve(self.url)
-                if not isinstance(location, params.HTTPURL):
+                if (not isinstance(location, params.HTTPURL) or
+                        not location.host or location.userinfo):
                     logging.warning("Ignoring Location %s", str(location))
                     return
                 if (self.status == 303 and
-- 
2.43.0


From b4d5c8510b902b4b5012cb71379298af7cf84196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:10 +0000
Subject: [PATCH 201/362] fix: a Location that is not a valid URI is not
 followed

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index eee635c..bffc78c 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2034,7 +2034,7 @@ class ClientRequest(messages.Request):
             # confirmed by the user
             try:
                 location = self.response.get_location()
-            except ValueError as e:
+            except (ValueError, uri.URIException) as e:
                 logging.warning("Ignoring Location after %s", str(e))
                 location = None
             if location:
-- 
2.43.0


From cc3f20406d68865e6b3a01f0053f1f3f99112f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:30 +0000
Subject: [PATCH 202/362] fix: no redirect repeats a request with a method
 other than GET or HEAD

---
 pyslet/http/client.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index bffc78c..575b30c 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2026,12 +2026,11 @@ class ClientRequest(messages.Request):
         if (self.auto_redirect and self.status >= 300 and
                 self.status <= 399 and
                 self.nredirects < MAX_REDIRECTS and
-                (self.status not in (301, 302, 307) or
+                (self.status == 303 or
                  self.method.upper() in ("GET", "HEAD"))):
-            # If the 301, 302 or 307 status code is received in response
-            # to a request other than GET or HEAD, the user agent MUST
-            # NOT automatically redirect the request unless it can be
-            # confirmed by the user
+            # The action required may be carried out without
+            # interaction with the user if and only if the method used
+            # in the second request is GET or HEAD, see 303 below.
             try:
                 location = self.response.get_location()
             except (ValueError, uri.URIException) as e:
-- 
2.43.0


From b9f69ae29a3314dd9b0368af71dc39ad45b779bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 203/362] fix: the HTTP server's own errors can be raised and
 reported

---
 pyslet/http/server.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 9f94287..5bfa980 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -112,7 +112,7 @@ def split_socket(s, buffstr=b'', timeout=None,
             line = bytes(buffer[rpos:end + 2])
             if len(line) > maxline:
                 raise messages.HTTPException(
-                    "max line length exceeded: %s..." + line[0:64])
+                    "max line length exceeded: %s..." % repr(line[0:64]))
             lines.append(line)
             rpos = end + 2
             if line == grammar.CRLF:
@@ -172,8 +172,8 @@ def split_socket1(s, buffstr=b'', timeout=None, maxline=MAX_HEADER_LINE):
             # not found, fill the buffer with data
             pass
         if len(buffer) >= maxline:
-            raise HTTPException("max line length exceeded: %s..." +
-                                buffer[0:64])
+            raise messages.HTTPException(
+                "max line length exceeded: %s..." % repr(bytes(buffer[0:64])))
         data = read_socket(s, maxline - len(buffer), timeout=timeout)
         if not data:
             return None, bytes(buffer)
@@ -334,7 +334,8 @@ class Connection(socketserver.BaseRequestHandler):
                             if line is None:
                                 # hang up
                                 if request.method:
-                                    raise ProtocolError("Unexpected EOM")
+                                    raise messages.ProtocolError(
+                                        "Unexpected EOM")
                                 else:
                                     # client hung up
                                     logging.debug("client hang up detected")
@@ -358,7 +359,7 @@ class Connection(socketserver.BaseRequestHandler):
                                 if data is None:
                                     # client hang up when we expected
                                     # more data
-                                    raise ProtocolError(
+                                    raise messages.ProtocolError(
                                         "Unexpected EOM in data")
                                 request.recv(data)
                         elif mode == request.RECV_ALL:
@@ -738,7 +739,7 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         try:
             return socketserver.TCPServer.get_request(self)
         except socket.error as e:
-            logging.errror("Server socket error %s", repr(e))
+            logging.error("Server socket error %s", repr(e))
             raise
 
     def handle_timeout(self):
-- 
2.43.0


From 26f9b55d7ae1a236e8848fe7c9e5159eb789bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 204/362] fix: the HTTP server does not lose pipelined requests
 it has already read

---
 pyslet/http/server.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 5bfa980..51a6f76 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -278,6 +278,9 @@ class Connection(socketserver.BaseRequestHandler):
         # these pipes are for the entity body, not the message body! in
         # otherwords, they deal with data after transfer encodings have
         # been removed
+        # data read from the socket but not yet consumed, may contain
+        # the start of the next request
+        buffstr = b''
         try:
             while not self.finished.is_set():
                 logging.debug("handle_request: reading request...")
@@ -285,7 +288,6 @@ class Connection(socketserver.BaseRequestHandler):
                 rflag = CascadingEvent()
                 request.recv_pipe.set_rflag(rflag)
                 request.start_receiving()
-                buffstr = b''
                 timeout = self.server.idle_timeout
                 send_continue = False
                 send_continue_start = 0
@@ -351,7 +353,7 @@ class Connection(socketserver.BaseRequestHandler):
                                 request.recv(data)
                             elif buffstr:
                                 request.recv(buffstr)
-                                buffstr = ''
+                                buffstr = b''
                             else:
                                 # read some data from the socket
                                 data = read_socket(self.request, mode,
@@ -366,7 +368,7 @@ class Connection(socketserver.BaseRequestHandler):
                             # unlimited read from the socket
                             if buffstr:
                                 request.recv(buffstr)
-                                buffstr = ''
+                                buffstr = b''
                             else:
                                 data = read_socket(self.request,
                                                    io.DEFAULT_BUFFER_SIZE,
-- 
2.43.0


From b3fd003c08795642a852ac42cd54f159649b49db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 205/362] fix: the HTTP server refuses connections over its
 limit with a 503 response

---
 pyslet/http/server.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 51a6f76..f576963 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -539,7 +539,7 @@ class Connection(socketserver.BaseRequestHandler):
                     logging.error("%s: Application timeout",
                                   response.request.get_start())
                     response.set_content_length(0)
-                    response.write_response('')
+                    response.write_response(b'')
                 logging.debug("...sending response")
                 # send the response
                 keep_alive = response.keep_alive
@@ -578,9 +578,10 @@ class Connection(socketserver.BaseRequestHandler):
     def service_unavailable(self):
         # return a 503 response
         write_socket(self.request,
-                     "HTTP/1.1 503 Service Unavailable\r\n"
-                     "Connection: close\r\n"
-                     "\r\n",
+                     b"HTTP/1.1 503 Service Unavailable\r\n"
+                     b"Connection: close\r\n"
+                     b"Content-Length: 0\r\n"
+                     b"\r\n",
                      self.server.connection_timeout)
 
 
@@ -685,7 +686,7 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         # add this connection to the queue
         with self.lock:
             if (self.con_max is not None and
-                    len(self.connections) > self.con_max):
+                    len(self.connections) >= self.con_max):
                 # refuse this connection, we're too busy
                 connection.id = 0
             else:
-- 
2.43.0


From 02c489c6821ae61a07ece5ec14a73d6ab24f7c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 206/362] fix: applications run without the HTTP server's lock,
 host names are case insensitive

---
 pyslet/http/server.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index f576963..e68570e 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -716,22 +716,24 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         """Launches a WSGI application
 
         The default implementation returns a 404 error"""
+        authority = environ.get('HTTP_HOST', self.default_authority).lower()
         with self.lock:
-            authority = environ.get('HTTP_HOST', self.default_authority)
-            try:
-                app = self.authorities[authority]
-                if app is None:
-                    # this implementation mainly for testing, we want to read
-                    # all the data from the input string
-                    response_headers = []
-                    start_response("404 Page Not Found", response_headers)
-                    return []
-                else:
-                    return app(environ, start_response)
-            except KeyError:
-                # bad host in request
-                start_response("400 Bad Request", [])
-                return []
+            known = authority in self.authorities
+            app = self.authorities.get(authority, None)
+        # don't hold the lock while the app is running: it may block
+        # waiting for input
+        if not known:
+            # bad host in request
+            start_response("400 Bad Request", [])
+            return []
+        elif app is None:
+            # this implementation mainly for testing, we want to read
+            # all the data from the input string
+            response_headers = []
+            start_response("404 Page Not Found", response_headers)
+            return []
+        else:
+            return app(environ, start_response)
 
     def get_request(self):
         """Adds logging of socket errors on connect
-- 
2.43.0


From 01bf0eaf5c1064cb5cd5c60a36a3a5f61b2bf528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 207/362] fix: the HTTP server's WSGI environ contains native
 strings and repeated headers

---
 pyslet/http/server.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index e68570e..733f20f 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -783,11 +783,11 @@ class ServerRequest(messages.Request):
                 'REQUEST_METHOD': self.method,
                 'SCRIPT_NAME': '',
                 'PATH_INFO': path_info,
-                'QUERY_STRING': url.query,
+                'QUERY_STRING': '',
                 'SERVER_NAME': self.connection.server.host,
                 'SERVER_PORT': str(self.connection.server.port),
-                'SERVER_PROTCOL': str(self.protocol),
-                'REMOTE_ADDR': str(self.connection.client_address),
+                'SERVER_PROTOCOL': str(self.protocol),
+                'REMOTE_ADDR': str(self.connection.client_address[0]),
                 'wsgi.version': (1, 0),
                 'wsgi.url_scheme':
                 'https' if self.connection.server.https else 'http',
@@ -800,14 +800,17 @@ class ServerRequest(messages.Request):
                 environ['QUERY_STRING'] = url.query
             content_type = self.get_header('Content-Type')
             if content_type is not None:
-                environ['CONTENT_TYPE'] = content_type
+                environ['CONTENT_TYPE'] = content_type.decode('iso-8859-1')
             content_length = self.get_header('Content-Length')
             if content_length is not None:
-                environ['CONTENT_LENGTH'] = content_length
+                environ['CONTENT_LENGTH'] = content_length.decode(
+                    'iso-8859-1')
             for hname, hvalue in dict_items(self.headers):
+                # repeated headers are folded in to a single value
+                sep = b"; " if hname == b"cookie" else b", "
                 hname = hname.replace(b"-", b"_").decode('iso-8859-1')
-                environ['HTTP_' + hname.upper()] = hvalue[1].decode(
-                    'iso-8859-1')
+                environ['HTTP_' + hname.upper()] = sep.join(
+                    hvalue[1:]).decode('iso-8859-1')
         # now launch the application in a separate thread
         response = ServerResponse(
             request=self, protocol=self.connection.server.protocol)
-- 
2.43.0


From 8eb5998933959dd7d39ebd00f44d41d3d8ec7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 208/362] fix: the HTTP server sends any status line and
 repeated headers set by the application

---
 pyslet/http/server.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 733f20f..1766d3e 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -832,6 +832,8 @@ class ServerResponse(messages.Response):
         #: a CascadingEvent set when the response headers are sent
         self.ready_to_send = CascadingEvent()
         self.send_continue = CascadingEvent()
+        #: the names of the headers set by the application
+        self.app_headers = []
         super(ServerResponse, self).__init__(
             request=request, entity_body=self.send_pipe, **kwargs)
 
@@ -916,15 +918,15 @@ class ServerResponse(messages.Response):
 
     def start_response(self, status, response_headers, exc_info=None):
         with self.lock:
-            pstatus = params.ParameterParser(status, ignore_sp=False)
-            if pstatus.is_integer():
-                self.status = pstatus.parse_integer()
-            else:
-                self.status = 0
-            pstatus.parse_sp()
-            self.reason = pstatus.parse_remainder().decode('iso-8859-1')
+            code, _, self.reason = status.partition(' ')
+            self.status = int(code)
+            # replace headers set by an earlier call, if any
+            for name in self.app_headers:
+                self.set_header(name, None)
+            self.app_headers = []
             for name, value in response_headers:
-                self.set_header(name, value)
+                self.app_headers.append(name)
+                self.set_header(name, value, append_mode=True)
         return self.write_response
 
     def write_response(self, body_data):
-- 
2.43.0


From 609078d86e61cc90e3ece96524a4581d9c04ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:03 +0000
Subject: [PATCH 209/362] fix: the HTTP server sends responses that must not
 have a body

---
 pyslet/http/server.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 1766d3e..7706853 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -832,13 +832,25 @@ class ServerResponse(messages.Response):
         #: a CascadingEvent set when the response headers are sent
         self.ready_to_send = CascadingEvent()
         self.send_continue = CascadingEvent()
+        #: True if this response must not have a body
+        self.discard_body = False
         #: the names of the headers set by the application
         self.app_headers = []
         super(ServerResponse, self).__init__(
             request=request, entity_body=self.send_pipe, **kwargs)
 
     def start_sending(self):
-        super(ServerResponse, self).start_sending()
+        with self.lock:
+            if (self.request.method == 'HEAD' or
+                    self.status in (204, 304)):
+                # these responses have no body, whatever the app yields
+                self.discard_body = True
+                if (self.request.method == 'HEAD' and
+                        self.body_len is not None and
+                        self.get_content_length() is None):
+                    self.set_content_length(self.body_len)
+                self.entity_body = None
+            super(ServerResponse, self).start_sending()
         self.ready_to_send.set()
 
     def launch_app(self, environ):
@@ -854,14 +866,14 @@ class ServerResponse(messages.Response):
             if not isinstance(item, bytes):
                 logging.error("WSGI application yielded non bytes: %s",
                               repr(item))
-            if datalen == 1:
+            if datalen == 1 and not self.ready_to_send.is_set():
                 # this is all the data, set the body_len
                 self.body_len = len(item)
             if not self.ready_to_send.is_set():
                 # don't send the headers until the first bit of data
                 # has been yielded
                 self.start_sending()
-            wbytes = item
+            wbytes = item if not self.discard_body else None
             while wbytes:
                 nbytes = self.send_pipe.write(wbytes)
                 if nbytes < len(wbytes):
@@ -933,6 +945,8 @@ class ServerResponse(messages.Response):
         if not self.ready_to_send.is_set():
             # start sending the response, we've got legacy data
             self.start_sending()
+        if self.discard_body:
+            return
         while body_data:
             nbytes = self.send_pipe.write(body_data)
             if nbytes < len(body_data):
-- 
2.43.0


From 64d4dd6e090a5e466751edc6dc93c96a936574ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:03 +0000
Subject: [PATCH 210/362] fix: the HTTP server closes the connection when the
 client asks it to

---
 pyslet/http/server.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 7706853..5e20291 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -542,7 +542,8 @@ class Connection(socketserver.BaseRequestHandler):
                     response.write_response(b'')
                 logging.debug("...sending response")
                 # send the response
-                keep_alive = response.keep_alive
+                keep_alive = (response.keep_alive and
+                              response.request.keep_alive)
                 data = response.send_start()
                 write_socket(self.request, data,
                              self.server.connection_timeout)
@@ -768,6 +769,7 @@ class ServerRequest(messages.Request):
 
     def handle_headers(self):
         """Create a wsgi environment and start a processing thread"""
+        super(ServerRequest, self).handle_headers()
         # normalise the request URI to remove scheme and authority
         # ensures Host: is set correctly
         self.extract_authority()
@@ -814,6 +816,8 @@ class ServerRequest(messages.Request):
         # now launch the application in a separate thread
         response = ServerResponse(
             request=self, protocol=self.connection.server.protocol)
+        if not self.keep_alive and self.protocol > params.HTTP_1p0:
+            response.clear_keep_alive()
         self.connection.handle_response(response)
         t = threading.Thread(target=response.launch_app, args=(environ, ))
         t.start()
@@ -850,6 +854,9 @@ class ServerResponse(messages.Response):
                         self.get_content_length() is None):
                     self.set_content_length(self.body_len)
                 self.entity_body = None
+            if self.protocol <= params.HTTP_1p0:
+                # no persistent connections
+                self.clear_keep_alive()
             super(ServerResponse, self).start_sending()
         self.ready_to_send.set()
 
-- 
2.43.0


From e5ac263e48768828999084e6fe9b8beed4667446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 211/362] fix: an application never mistakes part of a request
 body for all of it, one bad request gets one response

---
 pyslet/http/server.py | 98 ++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 42 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 5e20291..03b1f51 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -294,7 +294,9 @@ class Connection(socketserver.BaseRequestHandler):
                 try:
                     while True:
                         mode = request.recv_mode()
-                        if mode is None or request.aborted.is_set():
+                        if request.aborted.is_set():
+                            break
+                        if mode is None:
                             # the request is complete, simulate EOF on
                             # the recv_pipe to ensure that any read()
                             # call in the application terminates and
@@ -405,30 +407,11 @@ class Connection(socketserver.BaseRequestHandler):
                         # timeout to prevent unexpected hang-ups
                         timeout = self.server.connection_timeout
                 except messages.ProtocolError as e:
-                    # log this error as a warning
                     # push a suitable response and then
                     # hang up, no good will come of this connection
-                    response = ServerResponse(request=request,
-                                              protocol=self.server.protocol)
-                    self.responseq.put(response)
-                    response.set_status(400)
-                    response.clear_keep_alive()
-                    txt = str(e).encode('iso8859-1')
-                    response.set_content_type(params.PLAIN_TEXT)
-                    response.set_content_length(len(txt))
-                    response.write_response(txt)
-                    self.finished.set()
+                    self.bad_request(request, 400, e)
                 except NotImplementedError as e:
-                    response = ServerResponse(request=request,
-                                              protocol=self.server.protocol)
-                    self.responseq.put(response)
-                    response.set_status(501)
-                    response.clear_keep_alive()
-                    txt = str(e).encode('iso8859-1')
-                    response.set_content_type(params.PLAIN_TEXT)
-                    response.set_content_length(len(txt))
-                    response.write_response(txt)
-                    self.finished.set()
+                    self.bad_request(request, 501, e)
                 except IOError as e:
                     if request.method:
                         logging.warning("Unexpected EOM: %s; %s",
@@ -442,22 +425,11 @@ class Connection(socketserver.BaseRequestHandler):
                     # log this error as an internal server error push a
                     # suitable 500 response and then hang up because
                     # we've messed up
-                    response = ServerResponse(request=request,
-                                              protocol=self.server.protocol)
-                    self.responseq.put(response)
-                    response.set_status(500)
-                    response.clear_keep_alive()
-                    txt = str(e).encode('iso8859-1')
-                    # import traceback
-                    # txt = traceback.format_exc().encode('iso-8859-1')
-                    logging.error("%s: %s", response.request.get_start(), txt)
-                    response.set_content_type(params.PLAIN_TEXT)
-                    response.set_content_length(len(txt))
-                    response.write_response(txt)
-                    self.finished.set()
-                # we've finished reading the message, close the recv_pipe
-                # to help clean things up quickly
-                request.recv_pipe.close()
+                    logging.error("%s: %s", request.request_uri, str(e))
+                    self.bad_request(request, 500, e)
+                # we've finished reading the message, ensure that any
+                # read() call in the application terminates
+                request.recv_pipe.cut_short()
                 if not request.keep_alive or request.response is None:
                     # the request wants us to close the connection or
                     # the client has hung up (or something has gone
@@ -481,6 +453,24 @@ class Connection(socketserver.BaseRequestHandler):
         logging.debug("handle_request: terminating connection...")
         self.responseq.put(None)
 
+    def bad_request(self, request, status, err):
+        """Called when a request can't be read
+
+        If the application is already dealing with the request it will
+        find out when it tries to read the rest of it."""
+        request.clear_keep_alive()
+        if request.response is None:
+            response = ServerResponse(request=request,
+                                      protocol=self.server.protocol)
+            response.set_status(status)
+            response.clear_keep_alive()
+            txt = str(err).encode('iso8859-1', 'replace')
+            response.set_content_type(params.PLAIN_TEXT)
+            response.set_content_length(len(txt))
+            self.responseq.put(response)
+            response.write_response(txt)
+        self.finished.set()
+
     def handle_response(self, response):
         self.responseq.put(response)
 
@@ -753,16 +743,40 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         logging.error("HTTP Server timeout: %s" % repr(self.timeout))
 
 
+class RequestPipe(Pipe):
+
+    """A pipe for the entity body of a request
+
+    The end of a body that has been cut short must not be mistaken for
+    the end of the message."""
+
+    #: True if the message is incomplete
+    incomplete = False
+
+    def cut_short(self):
+        """Ends the data, an error unless EOF was written already"""
+        with self.lock:
+            if not self._eof:
+                self.incomplete = True
+                self.write_eof()
+
+    def readinto(self, b):
+        nbytes = super(RequestPipe, self).readinto(b)
+        if nbytes == 0 and len(b) and self.incomplete:
+            raise IOError(errno.EPIPE, os.strerror(errno.EPIPE),
+                          "pyslet.http.server.RequestPipe.readinto")
+        return nbytes
+
+
 class ServerRequest(messages.Request):
 
     def __init__(self, connection, **kwargs):
         self.connection = connection
         # the body won't block on write, but will block on read for up
         # to connection_timeout (as the data is coming from outside).
-        self.recv_pipe = Pipe(wblocking=False,
-                              timeout=connection.server.connection_timeout,
-                              name="ServerRequest[%i].recv_pipe" %
-                              self.connection.id)
+        self.recv_pipe = RequestPipe(
+            wblocking=False, timeout=connection.server.connection_timeout,
+            name="ServerRequest[%i].recv_pipe" % self.connection.id)
         self.aborted = CascadingEvent()
         super(ServerRequest, self).__init__(entity_body=self.recv_pipe,
                                             **kwargs)
-- 
2.43.0


From e37923c0d2cac859b32fe8854ab14610c78b6227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 212/362] fix: the HTTP server survives failures of the
 application and incomplete responses

---
 pyslet/http/server.py | 62 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 03b1f51..47b81d5 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -9,6 +9,7 @@ import socket
 import ssl
 import threading
 import time
+import traceback
 
 from .. import rfc2396 as uri
 from ..py2 import py2, dict_items
@@ -560,6 +561,16 @@ class Connection(socketserver.BaseRequestHandler):
             # timeout waiting for a response object
             logging.error("HTTPServer: responseq timeout "
                           "(may indicate a stuck connection)")
+        except (IOError, messages.HTTPException) as e:
+            # the response can't be completed, hang up so that the
+            # client doesn't wait for the rest of it
+            logging.error("HTTPServer: response abandoned: %s", str(e))
+            response.request.aborted.set()
+            response.close()
+            try:
+                self.request.shutdown(socket.SHUT_RDWR)
+            except socket.error:
+                pass
         self.finished.set()
         logging.debug("handle_responses: done")
 
@@ -850,6 +861,8 @@ class ServerResponse(messages.Response):
         #: a CascadingEvent set when the response headers are sent
         self.ready_to_send = CascadingEvent()
         self.send_continue = CascadingEvent()
+        #: True if the application failed after the headers were sent
+        self.incomplete = False
         #: True if this response must not have a body
         self.discard_body = False
         #: the names of the headers set by the application
@@ -876,7 +889,49 @@ class ServerResponse(messages.Response):
 
     def launch_app(self, environ):
         logging.debug("Calling wsgi application...")
-        data = self.connection.server.launch_app(environ, self.start_response)
+        try:
+            data = self.connection.server.launch_app(
+                environ, self.start_response)
+            try:
+                self._send_data(data)
+            finally:
+                if hasattr(data, 'close'):
+                    data.close()
+        except Exception as e:
+            logging.error("WSGI application failed: %s\n%s", str(e),
+                          traceback.format_exc())
+            self._app_failed()
+        # HTTP requires us to read the entire input pipe even if
+        # we didn't use all the data, so do that here.
+        try:
+            self._spool_input(environ['wsgi.input'])
+        except (IOError, ValueError) as e:
+            # the rest of the request can't be read
+            logging.debug("%s", str(e))
+
+    def _app_failed(self):
+        # the application raised an exception
+        if self.ready_to_send.is_set():
+            # too late to report it, but we mustn't give the impression
+            # that the response is complete
+            self.incomplete = True
+            self.send_pipe.write_eof()
+            return
+        self.clear_keep_alive()
+        for name in self.app_headers:
+            self.set_header(name, None)
+        self.set_status(500)
+        self.body_len = 0
+        self.start_sending()
+        self.send_pipe.write_eof()
+
+    def send_body(self):
+        data = super(ServerResponse, self).send_body()
+        if self.incomplete:
+            raise messages.HTTPException("response cut short")
+        return data
+
+    def _send_data(self, data):
         # does data support len?
         try:
             datalen = len(data)
@@ -924,9 +979,8 @@ class ServerResponse(messages.Response):
         # response that there is no more in case the body length was
         # indeterminate and the reader is reading forever
         self.send_pipe.write_eof()
-        # HTTP requires us to read the entire input pipe even if
-        # we didn't use all the data, so do that here.
-        input = environ['wsgi.input']
+
+    def _spool_input(self, input):
         # we are limited in the methods we are allowed to use here
         # except that we know it is a BufferedReader over a Pipe object
         # set for read blocking up to the connection timeout
-- 
2.43.0


From b4a0fd2b9fe3bad43150cd2b22caca5b68f6f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 213/362] fix: the HTTP server hangs up promptly after the last
 response

---
 pyslet/http/server.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 47b81d5..0358753 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -304,6 +304,7 @@ class Connection(socketserver.BaseRequestHandler):
                             # doesn't just hang
                             logging.debug("%s : request complete",
                                           request.get_start())
+                            request.received = True
                             request.recv_pipe.write_eof()
                             break
                         if send_continue:
@@ -441,7 +442,8 @@ class Connection(socketserver.BaseRequestHandler):
                 # hang up the connection.
                 logging.debug("handle_request: waiting for response...")
                 request.response.ready_to_send.wait(self.server.app_timeout)
-                if not request.response.keep_alive:
+                if (not request.response.ready_to_send.is_set() or
+                        not request.response.keep_alive):
                     # the response is terminating the connection
                     break
                 # request and response happy to keep the connection open
@@ -557,6 +559,11 @@ class Connection(socketserver.BaseRequestHandler):
                         # end of body, close the response pipe
                         response.close()
                         break
+                if not keep_alive and (response.request.received or
+                                       response.request.aborted.is_set()):
+                    # wake the thread that is reading requests, there
+                    # won't be another one
+                    self.hang_up(socket.SHUT_RD)
         except queue.Empty:
             # timeout waiting for a response object
             logging.error("HTTPServer: responseq timeout "
@@ -567,13 +574,16 @@ class Connection(socketserver.BaseRequestHandler):
             logging.error("HTTPServer: response abandoned: %s", str(e))
             response.request.aborted.set()
             response.close()
-            try:
-                self.request.shutdown(socket.SHUT_RDWR)
-            except socket.error:
-                pass
+            self.hang_up(socket.SHUT_RDWR)
         self.finished.set()
         logging.debug("handle_responses: done")
 
+    def hang_up(self, how):
+        try:
+            self.request.shutdown(how)
+        except socket.error:
+            pass
+
     def end(self):
         pass
 
@@ -789,6 +799,8 @@ class ServerRequest(messages.Request):
             wblocking=False, timeout=connection.server.connection_timeout,
             name="ServerRequest[%i].recv_pipe" % self.connection.id)
         self.aborted = CascadingEvent()
+        #: True when the complete request has been received
+        self.received = False
         super(ServerRequest, self).__init__(entity_body=self.recv_pipe,
                                             **kwargs)
 
-- 
2.43.0


From e3cd5b62f2571c979a9a6382c42e7ba1dfe98d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 214/362] fix: specific tokens take precedence over wild cards
 however they sort

---
 pyslet/http/messages.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index ddae9cb..107ab35 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2362,11 +2362,8 @@ class AcceptToken(params.SortableParameter):
         return ''.join(result).encode('ascii')
 
     def sortkey(self):
-        if self.token == "*":
-            token = "~"
-        else:
-            token = self.token
-        return (token, -self.q)
+        # wild cards sort after all tokens, which are not case sensitive
+        return (self.token == "*", self._token, -self.q)
 
 
 class AcceptTokenList(params.Parameter):
-- 
2.43.0


From d26473f0bf66c98536b1d533c74dc1b61b413f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 215/362] fix: specific media ranges take precedence over wild
 cards however they sort

---
 pyslet/http/messages.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 107ab35..17996b1 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2172,10 +2172,11 @@ class MediaRange(params.MediaType):
                                            repr(self.parameters)))
 
     def sortkey(self):
-        t = '~' if self.type == '*' else self.type.lower()
-        st = '~' if self.subtype == '*' else self.subtype.lower()
-        # parameters sort before no parameters
-        return (t, st, -len(self._hp), self._hp)
+        # wild cards sort after all types, parameters sort before no
+        # parameters
+        return (self.type == '*', self.type.lower(),
+                self.subtype == '*', self.subtype.lower(),
+                -len(self._hp), self._hp)
 
     def match_media_type(self, mtype):
         """Tests whether a media-type matches this range.
-- 
2.43.0


From 7b256fb953897251a986be919eb29f55d38c60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 216/362] fix: parameters of media ranges with wild cards must
 match too

---
 pyslet/http/messages.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 17996b1..39a3245 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2201,13 +2201,10 @@ class MediaRange(params.MediaType):
             range application/myapp;option=on
 
         """
-        if self.type == '*':
-            return True
-        elif self.type.lower() != mtype.type.lower():
+        if self.type != '*' and self.type.lower() != mtype.type.lower():
             return False
-        if self.subtype == '*':
-            return True
-        elif self.subtype.lower() != mtype.subtype.lower():
+        if (self.subtype != '*' and
+                self.subtype.lower() != mtype.subtype.lower()):
             return False
         # all the parameters in the range must be matched
         for p, v in self._hp:
-- 
2.43.0


From a4c72746dcf2f2646c3ea08aec8ec8d6741ee6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 217/362] fix: AcceptLanguageList.select_token returns None
 when nothing is acceptable

---
 pyslet/http/messages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 39a3245..470cd2b 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2528,8 +2528,9 @@ class AcceptLanguageList(AcceptTokenList):
 
     def select_token(self, token_list):
         """Remapped to :py:meth:`select_language`"""
-        return str(self.select_language(
-                   list(params.LanguageTag.from_str(t) for t in token_list)))
+        lang = self.select_language(
+            list(params.LanguageTag.from_str(t) for t in token_list))
+        return None if lang is None else str(lang)
 
     def select_language(self, lang_list):
         bestmatch = None
-- 
2.43.0


From bb74bda24c0e318001e83101738a5170f76a9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 218/362] fix: an unreadable Expires attribute is ignored, a
 bad Path means the default path

---
 pyslet/http/cookie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index c352d3c..bbd0fe9 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -382,7 +382,9 @@ class CookieParser(grammar.OctetParser):
             aname_lower = aname.lower()
             if aname_lower == b"expires":
                 p = CookieParser(avalue)
-                expires = p.require_cookie_date()
+                date = p.require_cookie_date()
+                if date is not None:
+                    expires = date
             elif aname_lower == b"max-age":
                 if avalue and avalue[0] == HYPHEN:
                     if len(avalue) == 1:
@@ -409,6 +411,9 @@ class CookieParser(grammar.OctetParser):
             elif aname_lower == b"path":
                 if avalue and avalue[0] == grammar.SOLIDUS:
                     path = Cookie.cstr(avalue)
+                else:
+                    # means the default path
+                    path = None
             elif aname_lower == b"secure":
                 secure = True
             elif aname_lower == b"httponly":
-- 
2.43.0


From f309c9b4eb05246bb3f7e57a89479296168580df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 219/362] fix: very large Max-Age values don't overflow

---
 pyslet/http/cookie.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index bbd0fe9..db043eb 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -400,7 +400,15 @@ class CookieParser(grammar.OctetParser):
                             avalue = ''
                             break
                 if avalue:
-                    max_age = int(avalue)
+                    # limit the number of digits as there's no difference
+                    # between very large values
+                    negative = avalue[0] == HYPHEN
+                    digits = avalue[1 if negative else 0:].lstrip(b'0')
+                    if len(digits) > 12:
+                        digits = b'9' * 12
+                    max_age = int(digits or b'0')
+                    if negative:
+                        max_age = -max_age
             elif aname_lower == b'domain':
                 if avalue:
                     if avalue[0] == FULL_STOP:
-- 
2.43.0


From 2a8b3bd6d794e1a26c7439349bb76a29b5edd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 220/362] fix: Set-Cookie headers which should be ignored don't
 break the client

---
 pyslet/http/messages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 470cd2b..9510568 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2097,7 +2097,9 @@ class Response(Message):
         """
         field_value = self.get_header('Set-Cookie', list_mode=True)
         if field_value is not None:
-            return list(cookie.Cookie.from_str(v) for v in field_value)
+            # badly formatted cookies are ignored
+            cookies = (cookie.Cookie.from_str(v) for v in field_value)
+            return [c for c in cookies if c is not None]
         else:
             return None
 
-- 
2.43.0


From c6258ae76d73226240e57324a8d9a778bac037aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 221/362] fix: cookies for IP addresses and other hosts that
 aren't domain names match the whole host only

---
 pyslet/http/cookie.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index db043eb..62f0706 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -4,6 +4,7 @@ import time
 import logging
 import threading
 import os.path
+import re
 
 from .. import iso8601 as iso
 from ..py2 import (
@@ -25,6 +26,8 @@ def is_cookie_octet(b):
     else:
         return False
 
+IPV4_ADDRESS = re.compile(r"\d+\.\d+\.\d+\.\d+$")
+
 HYPHEN = byte('-')
 FULL_STOP = byte('.')
 
@@ -1056,21 +1059,15 @@ class CookieStore(object):
             raise CookieError(
                 "Can't set http_only cookie with this protocol: %s" %
                 url.scheme)
-        try:
-            host_str = url.host
-            host = split_domain(host_str)
-            host.reverse()
-        except ValueError:
-            # the domain is an IP address, match whole
-            host = [host]
+        host_str = url.host
+        host = self._split_host(host_str)
         domain = c.domain
         if domain is None:
             domain_str = host_str
             domain = host
         else:
             domain_str = domain
-            domain = split_domain(domain)
-            domain.reverse()
+            domain = self._split_host(domain)
             if not domain_in_domain(domain, host):
                 # you can't set this cookie from host
                 raise CookieError(
@@ -1110,6 +1107,18 @@ class CookieStore(object):
             if not c.expired():
                 dnode.cookies[(c.name, c.path)] = c
 
+    def _split_host(self, host_str):
+        # returns a reversed list of labels, suitable for walking the tree
+        if not IPV4_ADDRESS.match(host_str):
+            try:
+                host = split_domain(host_str)
+                host.reverse()
+                return host
+            except ValueError:
+                pass
+        # an IP address (or not a domain name), match whole
+        return [host_str.lower()]
+
     def search(self, url):
         """Searches for cookies that match a resource
 
@@ -1125,13 +1134,7 @@ class CookieStore(object):
         Expired cookies are automatically removed from the repository
         and all cookies returned have their access time updated to the
         current time."""
-        try:
-            host_str = url.host
-            host = split_domain(host_str)
-            host.reverse()
-        except ValueError:
-            # the domain is an IP address, match whole
-            host = [host]
+        host = self._split_host(url.host)
         matched = []
         dpos = 0
         now = time.time()
-- 
2.43.0


From f3ecd8c05150e107785b400fb681aa303dff55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 222/362] fix: cookies are returned to their own path and to
 URLs with an empty path

---
 pyslet/http/cookie.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 62f0706..90d31a3 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1135,6 +1135,8 @@ class CookieStore(object):
         and all cookies returned have their access time updated to the
         current time."""
         host = self._split_host(url.host)
+        # an empty path is requested as '/'
+        path = url.abs_path or '/'
         matched = []
         dpos = 0
         now = time.time()
@@ -1157,14 +1159,10 @@ class CookieStore(object):
                     if c.domain is None and not host_match:
                         continue
                     # do a path match
-                    if url.abs_path is None:
-                        continue
-                    if len(url.abs_path) < len(c.path):
-                        continue
-                    if not (url.abs_path.startswith(c.path) and
-                            (c.path[-1] == '/' or
-                             url.abs_path[len(c.path):len(c.path) + 1] ==
-                             '/')):
+                    if not (path == c.path or
+                            (path.startswith(c.path) and
+                             (c.path[-1] == '/' or
+                              path[len(c.path):len(c.path) + 1] == '/'))):
                         continue
                     # we have a domain and path match
                     if c.secure and not isinstance(url, params.HTTPSURL):
-- 
2.43.0


From 4eda08690368558a9b24a42dfa61e4910034d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:44 +0000
Subject: [PATCH 223/362] fix: parents of public suffixes are not public
 themselves, domains below exceptions are not public

---
 pyslet/http/cookie.py | 74 +++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 45 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 90d31a3..58ea8d3 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1272,8 +1272,9 @@ class CookieStore(object):
                     else:
                         # create a new node
                         dnode = self._expand_node(old_node, d)
-                        # force this to be public
-                        dnode.public = True
+                        if dcount == 1:
+                            # this is the suffix, force it to be public
+                            dnode.public = True
                 elif dcount == 1:
                     # this is the last label in the suffix, mark it
                     # as public if it isn't explicitly private
@@ -1328,11 +1329,13 @@ class CookieStore(object):
                             # private node
                             dnode.private = True
                             dnode.public = False
+                            dnode.public_depth = 0
                 elif dcount == 1:
                     # this is the last label in the suffix, mark it
                     # as private
                     dnode.private = True
                     dnode.public = False
+                    dnode.public_depth = 0
                     if d == '*':
                         # mark all children public too
                         for child in dict_values(old_node.nodes):
@@ -1429,21 +1432,26 @@ class CookieStore(object):
         domain = split_domain(domain_str)
         domain.reverse()
         with self.lock:
-            dnode = self
-            dcount = len(domain)
-            for d in domain:
-                old_node = dnode
-                dnode = old_node.nodes.get(d, None)
-                if dnode is None:
-                    # dcount is the number of labels left in domain
-                    if dcount > old_node.public_depth:
-                        return False
-                    else:
-                        return True
-                elif dcount == 1:
-                    # last label, this domain matches this rule exactly
-                    return dnode.public
-                dcount -= 1
+            return self._suffix_length(domain) == len(domain)
+
+    def _suffix_length(self, domain):
+        # the number of labels in the public suffix of a reversed domain
+        result = 0
+        dnode = self
+        for i, d in enumerate(domain):
+            old_node = dnode
+            dnode = old_node.nodes.get(d, old_node.nodes.get('*', None))
+            if dnode is None:
+                # the rest of domain is not listed
+                if old_node.public_depth:
+                    result = min(i + old_node.public_depth, len(domain))
+                break
+            elif dnode.private:
+                # an exception to the rule matched by d
+                return i
+            elif dnode.public:
+                result = i + 1
+        return result
 
     def get_registered_domain(self, domain_str, u_labels=False):
         """Returns the publicly registered portion of a domain
@@ -1476,35 +1484,11 @@ class CookieStore(object):
             # ignore domains with a leading '.'
             return None
         with self.lock:
-            dnode = self
-            dcount = len(domain)
-            matched = []
-            for d in domain:
-                old_node = dnode
-                dnode = old_node.nodes.get(d, None)
-                if dnode is None:
-                    # dcount is the number of labels left in domain
-                    if dcount > old_node.public_depth:
-                        # private domain with public prefix
-                        matched = matched + domain[
-                            -dcount:len(domain) - dcount +
-                            old_node.public_depth + 1]
-                    else:
-                        # public domain
-                        matched = None
-                    break
-                elif not dnode.public:
-                    # that's it, don't add any more labels after this one
-                    matched.append(d)
-                    break
-                elif dcount == 1:
-                    # last label, this domain matches this rule exactly
-                    matched = None
-                    break
-                matched.append(d)
-                dcount -= 1
-        if matched is None:
+            nlabels = self._suffix_length(domain) + 1
+        if nlabels > len(domain):
+            # public domain
             return None
+        matched = domain[:nlabels]
         matched.reverse()
         if u_labels:
             matched = [u[4:].decode('punycode') if is_a_label(u) else
-- 
2.43.0


From 281ea35a3925af01b96abc84e7271d402da649ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:30 +0000
Subject: [PATCH 224/362] fix: credentials with a realm match challenges

---
 pyslet/http/auth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 51efe91..3f86563 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -175,7 +175,8 @@ class Credentials(Parameter):
         if self.protectionSpace != challenge.protectionSpace:
             return False
         if self.realm:
-            if self.realm != challenge.realm:
+            # the challenge's parameters are binary strings
+            if self.bstr(self.realm) != challenge["realm"]:
                 return False
         return True
 
-- 
2.43.0


From d108b29adb09bd59940278792c5be93406ed1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:30 +0000
Subject: [PATCH 225/362] fix: BasicCredentials.match can be used with a
 challenge

---
 pyslet/http/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 3f86563..3089d20 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -237,7 +237,7 @@ class BasicCredentials(Credentials):
     def match(self, challenge=None, url=None):
         if challenge is not None:
             # must match the challenge
-            if not super(BasicCredentials, self).match(challenge):
+            if not self.match_challenge(challenge):
                 return False
         if url is not None:
             # must match the url
-- 
2.43.0


From 438cfad3651bd50b23eb6e458b6ab09c10a18234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:30 +0000
Subject: [PATCH 226/362] fix: an empty segment inside a path of a protection
 space matches itself only

---
 pyslet/http/auth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 3089d20..a67fec2 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -314,8 +314,10 @@ class BasicCredentials(Credentials):
             return False
         i = 0
         while i < len(prefix):
-            # note that an empty segment matches anything (except nothing)
-            if prefix[i] and prefix[i] != path[i]:
+            # note that an empty segment at the end of the prefix matches
+            # anything (except nothing)
+            if (prefix[i] != path[i] and
+                    (prefix[i] or i < len(prefix) - 1)):
                 return False
             i = i + 1
         return True
-- 
2.43.0


From 2ff914a2bf645768241bf816e0151e7ce7a41d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:44 +0000
Subject: [PATCH 227/362] fix: removing credentials from the client

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 575b30c..2b4b01e 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1621,6 +1621,7 @@ class Client(PEP8Compatibility, object):
             for i in range3(len(self.credentials)):
                 if self.credentials[i] is credentials:
                     del self.credentials[i]
+                    break
 
     def dnslookup(self, host, port):
         """Given a host name (string) and a port number performs a DNS lookup
-- 
2.43.0


From f219a9be4e2929100f2c48d137e78be948830c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 228/362] fix: processing instructions end at the first ?>,
 which is required, and have a target

---
 pyslet/xml/parser.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index dec55de..097adc9 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1663,16 +1663,14 @@ class XMLParser(PEP8Compatibility):
         target = self.parse_pi_target()
         if self.parse_s():
             while self.the_char is not None:
-                if self.the_char == '?':
-                    self.next_char()
-                    if self.the_char == '>':
-                        self.next_char()
-                        break
-                    else:
-                        # just a single '?'
-                        data.append('?')
+                if self.parse_literal('?>'):
+                    break
                 data.append(self.the_char)
                 self.next_char()
+            else:
+                if not self.dont_check_wellformedness:
+                    self.well_formedness_error(
+                        production + ": Unexpected end of file")
         else:
             self.check_pe_between_declarations(dentity)
             self.parse_required_literal('?>', production)
@@ -1686,7 +1684,7 @@ class XMLParser(PEP8Compatibility):
 
         Parses a processing instruction target name, the name is
         returned."""
-        name = self.parse_name()
+        name = self.parse_required_name("[17] PITarget")
         if name.lower() == 'xml':
             self.buff_text(name)
             self.well_formedness_error(
-- 
2.43.0


From c61ef4e424c884eb583598be18bee41f3b014593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 229/362] fix: comments end with -->, which is required, and
 can't contain --

---
 pyslet/xml/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 097adc9..50b1066 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1633,6 +1633,8 @@ class XMLParser(PEP8Compatibility):
                 if nhyphens < 2:
                     data.append('-' * nhyphens + self.the_char)
                     nhyphens = 0
+                elif not self.dont_check_wellformedness:
+                    self.well_formedness_error("-- in Comment")
                 # space does not change the hyphen count
                 self.next_char()
             else:
@@ -1643,6 +1645,10 @@ class XMLParser(PEP8Compatibility):
                     nhyphens = 0
                 data.append(self.the_char)
                 self.next_char()
+        else:
+            if not self.dont_check_wellformedness:
+                self.well_formedness_error(
+                    production + ": Unexpected end of file")
         return ''.join(data)
 
     def parse_pi(self, got_literal=False):
-- 
2.43.0


From fc2b4b53e2e284e794df2df77f6ec09b07c132c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 230/362] fix: attributes with a fixed value have it by default

---
 pyslet/xml/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 50b1066..e338362 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2275,8 +2275,10 @@ class XMLParser(PEP8Compatibility):
                 value = attrs.get(a, None)
                 if value is None:
                     # check for default
-                    if adef.presence == xml.XMLAttributeDefinition.DEFAULT:
-                        attrs[a] = adef.defaultValue
+                    if (adef.presence == xml.XMLAttributeDefinition.DEFAULT or
+                            adef.presence ==
+                            xml.XMLAttributeDefinition.FIXED):
+                        attrs[a] = value = adef.defaultValue
                         if check_standalone:
                             self.validity_error(
                                 "Standalone Document Declaration: "
-- 
2.43.0


From 14858434bb08343b32c9172afe40bd2de75280e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 231/362] fix: references to characters beyond Unicode are
 well-formedness errors

---
 pyslet/xml/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index e338362..db68cd8 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3546,11 +3546,16 @@ class XMLParser(PEP8Compatibility):
         if self.parse_literal('x'):
             qualifier = 'x'
             digits = self.parse_required_hex_digits(production)
-            data = character(int(digits, 16))
+            code = int(digits.lstrip('0')[:8] or '0', 16)
         else:
             qualifier = ''
             digits = self.parse_required_decimal_digits(production)
-            data = character(int(digits))
+            code = int(digits.lstrip('0')[:8] or '0')
+        try:
+            data = character(code)
+        except (ValueError, OverflowError):
+            # not a code point
+            data = None
         self.parse_required_literal(';', production)
         if self.refMode == XMLParser.RefModeInDTD:
             raise XMLForbiddenEntityReference(
-- 
2.43.0


From 7b5522211feff9679c8d16b175d370cd36f82683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 232/362] fix: characters outside the production Char are
 errors wherever they are

---
 pyslet/xml/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index db68cd8..99f2957 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -775,6 +775,12 @@ class XMLParser(PEP8Compatibility):
         else:
             self.entity.next_char()
             self.the_char = self.entity.the_char
+            if (self.the_char is not None and
+                    not self.dont_check_wellformedness and
+                    (self.the_char < ' ' or self.the_char > '\x7f') and
+                    not is_char(self.the_char)):
+                self.well_formedness_error(
+                    "[2] Char: illegal character %s" % repr(self.the_char))
             while self.the_char is None and self.entityStack:
                 self.entity.close()
                 self.entity = self.entityStack.pop()
-- 
2.43.0


From fac25cfdbe7f041993818500b7914e501ef4c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 233/362] fix: ]]> in character data is an error, parsing never
 ended

---
 pyslet/xml/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 99f2957..1879f60 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2698,6 +2698,11 @@ class XMLParser(PEP8Compatibility):
                     return True
             else:
                 pcdata = self.parse_char_data()
+                if self.the_char == ']' and self.parse_literal(xml.CDATA_END):
+                    if self.dont_check_wellformedness:
+                        self.handle_data(xml.CDATA_END, True)
+                    else:
+                        self.well_formedness_error("]]> in CharData")
                 if pcdata and not self.unhandled_data(pcdata):
                     # indicates end of the containing element
                     return False
-- 
2.43.0


From eb4ac4cf46550ca04e310abeb0d8d8bf94baa8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 234/362] fix: a document can start with an instruction with a
 target that starts xml

---
 pyslet/xml/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 1879f60..b2a7478 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1762,7 +1762,12 @@ class XMLParser(PEP8Compatibility):
         Parses the document prolog, including the XML declaration and
         dtd."""
         production = "[22] prolog"
-        if self.parse_literal('<?xml'):
+        got_decl = self.parse_literal('<?xml')
+        if got_decl and xml.is_name_char(self.the_char):
+            # the target of a processing instruction
+            self.buff_text('<?xml')
+            got_decl = False
+        if got_decl:
             self.parse_xml_decl(True)
         else:
             self.declaration = None
-- 
2.43.0


From d6736a5a7de281737d4deb3db0cfb9e7365f790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:37 +0000
Subject: [PATCH 235/362] fix: character references to CR and U+FEFF in entity
 values are kept

---
 pyslet/xml/structures.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index cf351e4..3e6c454 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3218,6 +3218,11 @@ class XMLEntity(MigratedClass):
             # process the entity here, will automatically close
     """
 
+    #: True if the text is to be read as it is: the literal values of
+    #: internal entities have neither line ends nor a byte order mark left
+    #: to process
+    literal_text = False
+
     def __init__(self, src=None, encoding=None, req_manager=None, **kws):
         req_manager = kws.get('reqManager', req_manager)
         self.location = None
@@ -3492,7 +3497,7 @@ class XMLEntity(MigratedClass):
         self.next_char()
         # python handles the utf-16 BOM automatically but we have to
         # skip it for utf-8
-        if self.the_char == character(0xFEFF) and \
+        if self.the_char == character(0xFEFF) and not self.literal_text and \
                 self.encoding is not None and self.encoding.lower() == 'utf-8':
             self.next_char()
 
@@ -3522,7 +3527,10 @@ class XMLEntity(MigratedClass):
             self.the_char = None
         else:
             self.the_char = self.chars[self.char_pos]
-            if self.the_char == '\x0D':
+            if self.literal_text:
+                if self.the_char == '\x0A':
+                    self.next_line()
+            elif self.the_char == '\x0D':
                 # change to a line feed and ignore the next line feed
                 self.the_char = '\x0A'
                 self.ignore_lf = True
@@ -3728,6 +3736,7 @@ class XMLDeclaredEntity(XMLEntity):
         amount of look-ahead which may result in some characters needing
         to be re-parsed. We pass this to future parsers using
         :py:attr:`buff_text`."""
+        self.literal_text = not self.is_external()
         if isinstance(self.definition, bytes):
             self.open_string(self.definition)
         elif is_unicode(self.definition):
-- 
2.43.0


From ca7b8f7a64b98735df4f31f9bf027f902326de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:47 +0000
Subject: [PATCH 236/362] fix: an entity with no text can be referred to more
 than once

---
 pyslet/xml/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index b2a7478..0d5046f 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -836,6 +836,7 @@ class XMLParser(PEP8Compatibility):
             # entity used UTF-16 but it was completely empty (not even a
             # BOM) then that is an error.
             self.check_encoding(entity, None)
+            entity.close()
         if entity.buff_text:
             self.buff_text(entity.buff_text)
 
-- 
2.43.0


From b73f325e2bd90d178d92cb39f259e4f327d6d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:30 +0000
Subject: [PATCH 237/362] fix: parameter entities can't be referred to in
 declarations of the internal subset of any document

---
 pyslet/xml/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 0d5046f..e014b9c 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1973,7 +1973,9 @@ class XMLParser(PEP8Compatibility):
         subset_entity = self.entity
         while True:
             if self.the_char == '<':
-                self.noPERefs = (self.get_external_entity() is subset_entity)
+                # (the document has no location if read from a string)
+                self.noPERefs = (self.get_external_entity() in
+                                 (None, subset_entity))
                 self.parse_markup_decl()
                 self.noPERefs = False
             elif self.the_char == '%' or self.is_s():
-- 
2.43.0


From 55d295a5a4631b83ff768697c45ee305bd729e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:04 +0000
Subject: [PATCH 238/362] fix: an element declaration with no content model is
 a well-formedness error, not a TypeError

---
 pyslet/xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index e014b9c..fcfc017 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2856,7 +2856,7 @@ class XMLParser(PEP8Compatibility):
                 etype.content_model = self.parse_children(True, group_entity)
         else:
             self.well_formedness_error(
-                production, ": expected 'EMPTY', 'ANY' or '('")
+                production + ": expected 'EMPTY', 'ANY' or '('")
 
     def parse_children(self, got_literal=False, group_entity=None):
         """[47] children
-- 
2.43.0


From f0b3314fd7491da3d69a6b53f28fa53dfd982f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:04 +0000
Subject: [PATCH 239/362] fix: tags, elements and other markup must start and
 end in the same entity

---
 pyslet/xml/parser.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index fcfc017..47f47fa 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1023,6 +1023,21 @@ class XMLParser(PEP8Compatibility):
             self.nonFatalErrors.append(
                 "%s: %s" % (self.entity.get_position_str(), msg))
 
+    def check_entity(self, entity, production):
+        """Checks that markup ends in the entity it started in
+
+        entity
+            The entity that was being parsed when the markup started.
+
+        production
+            A string describing the markup.
+
+        Must be called when the last character of the markup is the
+        current character."""
+        if self.entity is not entity and not self.dont_check_wellformedness:
+            self.well_formedness_error(
+                "%s: must start and end in the same entity" % production)
+
     def parse_literal(self, match):
         """Parses an optional literal string.
 
@@ -1033,7 +1048,12 @@ class XMLParser(PEP8Compatibility):
         otherwise. There is no partial matching, if *match* is not found
         then the parser is left in its original position."""
         match_len = 0
+        entity = self.entity
         for m in match:
+            if match_len and self.entity is not entity:
+                # part of the literal was in an entity that has ended
+                self.buff_text(match[:match_len])
+                break
             if m != self.the_char and (not self.sgml_namecase_general or
                                        self.the_char is None or
                                        m.lower() != self.the_char.lower()):
@@ -1624,6 +1644,7 @@ class XMLParser(PEP8Compatibility):
             elif self.the_char == '>':
                 if nhyphens == 2:
                     self.check_pe_between_declarations(centity)
+                    self.check_entity(centity, production)
                     self.next_char()
                     break
                 elif nhyphens < 2:
@@ -1676,6 +1697,7 @@ class XMLParser(PEP8Compatibility):
         target = self.parse_pi_target()
         if self.parse_s():
             while self.the_char is not None:
+                self.check_entity(dentity, production)
                 if self.parse_literal('?>'):
                     break
                 data.append(self.the_char)
@@ -1686,6 +1708,7 @@ class XMLParser(PEP8Compatibility):
                         production + ": Unexpected end of file")
         else:
             self.check_pe_between_declarations(dentity)
+            self.check_entity(dentity, production)
             self.parse_required_literal('?>', production)
         if self.element:
             self.element.processing_instruction(target, ''.join(data))
@@ -1738,7 +1761,9 @@ class XMLParser(PEP8Compatibility):
         This method adds any parsed data to the current element, there
         is no return value."""
         data = []
+        entity = self.entity
         while self.the_char is not None:
+            self.check_entity(entity, "[18] CDSect")
             if self.parse_literal(cdend):
                 self.buff_text(cdend)
                 break
@@ -2122,6 +2147,7 @@ class XMLParser(PEP8Compatibility):
         save_element = self.element
         save_element_type = self.elementType
         save_cursor = None
+        start_entity = self.entity
         if self.sgml_omittag and self.the_char != '<':
             # Leading data means the start tag was omitted (perhaps at the
             # start of the doc)
@@ -2217,6 +2243,7 @@ class XMLParser(PEP8Compatibility):
                 # otherwise content detected end of element (so end tag
                 # was omitted)
                 while self.parse_content():
+                    self.check_entity(start_entity, production)
                     end_name = self.parse_etag()
                     if end_name == name:
                         break
@@ -2525,7 +2552,9 @@ class XMLParser(PEP8Compatibility):
         emptyFlag
             a boolean; True indicates that the tag was an empty element
             tag."""
+        production = "[40] STag"
         empty = False
+        entity = self.entity
         self.parse_required_literal('<')
         name = self.parse_required_name()
         attrs = {}
@@ -2533,9 +2562,11 @@ class XMLParser(PEP8Compatibility):
             try:
                 s = self.parse_s()
                 if self.the_char == '>':
+                    self.check_entity(entity, production)
                     self.next_char()
                     break
                 elif self.the_char == '/':
+                    self.check_entity(entity, production)
                     self.parse_required_literal('/>')
                     empty = True
                     break
@@ -2597,10 +2628,12 @@ class XMLParser(PEP8Compatibility):
 
         The method returns the name of the end element parsed."""
         production = "[42] ETag"
+        entity = self.entity
         if not got_literal:
             self.parse_required_literal('</')
         name = self.parse_required_name(production)
         self.parse_s()
+        self.check_entity(entity, production)
         if self.dont_check_wellformedness:
             # ignore all rubbish in end tags
             while self.the_char is not None:
@@ -2631,7 +2664,9 @@ class XMLParser(PEP8Compatibility):
         while True:
             if self.the_char == '<':
                 # element, CDSect, PI or Comment
+                centity = self.entity
                 self.next_char()
+                self.check_entity(centity, "[43] content")
                 if self.the_char == '!':
                     # CDSect or Comment
                     self.next_char()
@@ -3559,6 +3594,7 @@ class XMLParser(PEP8Compatibility):
         The method returns a unicode string containing the character
         referred to."""
         production = "[66] CharRef"
+        entity = self.entity
         if not got_literal:
             self.parse_required_literal('&', production)
         self.parse_required_literal('#', production)
@@ -3575,6 +3611,7 @@ class XMLParser(PEP8Compatibility):
         except (ValueError, OverflowError):
             # not a code point
             data = None
+        self.check_entity(entity, production)
         self.parse_required_literal(';', production)
         if self.refMode == XMLParser.RefModeInDTD:
             raise XMLForbiddenEntityReference(
@@ -3595,7 +3632,9 @@ class XMLParser(PEP8Compatibility):
         referred to.  For a general entity the data returned will depend
         on the parsing context. For more information see
         :py:meth:`parse_entity_ref`."""
+        entity = self.entity
         self.parse_required_literal('&', "[67] Reference")
+        self.check_entity(entity, "[67] Reference")
         if self.the_char == '#':
             return self.parse_char_ref(True)
         else:
@@ -3644,6 +3683,7 @@ class XMLParser(PEP8Compatibility):
         if self.dont_check_wellformedness:
             self.parse_literal(';')
         else:
+            self.check_entity(entity, production)
             self.parse_required_literal(';', production)
         if self.refMode == XMLParser.RefModeInEntityValue:
             return "&%s;" % name
-- 
2.43.0


From 10ab79f3590f7d939143a756d76397dd722aa345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:17 +0000
Subject: [PATCH 240/362] fix: references to undeclared entities that can't be
 an error are ignored in attribute values

---
 pyslet/xml/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 47f47fa..326d353 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3737,6 +3737,7 @@ class XMLParser(PEP8Compatibility):
                 else:
                     self.validity_error(
                         "Entity Declared: undeclared general entity %s" % name)
+                    return ''
 
     def lookup_predefined_entity(self, name):
         """Looks up pre-defined entities, e.g., "lt"
-- 
2.43.0


From b539c94c5746708a4037eb11ab2875cb6fbc5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:17 +0000
Subject: [PATCH 241/362] fix: parameter entities can't be referred to in a
 document type declaration outside of its subsets

---
 pyslet/xml/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 326d353..bdb31ec 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1941,6 +1941,8 @@ class XMLParser(PEP8Compatibility):
             self.parse_required_literal('<!DOCTYPE', production)
         save_mode = self.refMode
         self.refMode = XMLParser.RefModeInDTD
+        # parameter entities are only recognised in the subsets
+        self.noPERefs = True
         self.dtd = xml.XMLDTD()
         self.parse_required_s(production)
         self.dtd.name = self.parse_required_name(production)
@@ -1952,7 +1954,9 @@ class XMLParser(PEP8Compatibility):
         if self.parse_literal('['):
             # If there is no external_id we treat as standalone (until a
             # PE ref)
+            self.noPERefs = False
             self.parse_int_subset()
+            self.noPERefs = True
             self.parse_required_literal(']', production)
             self.parse_s()
         if self.check_validity and self.dtd.external_id:
@@ -1962,7 +1966,9 @@ class XMLParser(PEP8Compatibility):
             if src:
                 external_dtd_subset = xml.XMLEntity(src)
                 self.push_entity(external_dtd_subset)
+                self.noPERefs = False
                 self.parse_ext_subset()
+        self.noPERefs = False
         self.parse_required_literal('>', production)
         self.refMode = save_mode
         return self.dtd
-- 
2.43.0


From 510356245eef537f25938ebffbd69eb38e34edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:50 +0000
Subject: [PATCH 242/362] fix: entities that refer to each other in their last
 characters are recursive, parsing never ended

---
 pyslet/xml/parser.py     | 31 ++++++++++++++++++++++++-------
 pyslet/xml/structures.py |  2 ++
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index bdb31ec..2d148fd 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3724,16 +3724,12 @@ class XMLParser(PEP8Compatibility):
                             self.well_formedness_error(
                                 "No External Entity References: &%s; not "
                                 "allowed in attribute value" % name)
-                        if e.is_open() or (e is entity):
-                            # if the last char of the entity is a ';'
-                            # closing a recursive entity reference then
-                            # the entity will have been closed so we
-                            # must check the context of the reference #
-                            # too, not just whether it is currently open
+                        if self.is_recursive(e, entity):
                             self.well_formedness_error(
                                 "No Recursion: entity &%s; is already open" %
                                 name)
                         e.open()
+                        e.ref_entity = entity
                         self.push_entity(e)
                     return ''
                 elif self.standalone():
@@ -3745,6 +3741,26 @@ class XMLParser(PEP8Compatibility):
                         "Entity Declared: undeclared general entity %s" % name)
                     return ''
 
+    def is_recursive(self, e, entity):
+        """Tests if a reference is recursive
+
+        e
+            The entity referred to
+
+        entity
+            The entity the reference is in
+
+        If the last character of an entity is the ';' of a reference then
+        the entity has been closed by the time the reference is dealt
+        with so it isn't enough to check that e is open."""
+        if e.is_open():
+            return True
+        while entity is not None:
+            if e is entity:
+                return True
+            entity = entity.ref_entity
+        return False
+
     def lookup_predefined_entity(self, name):
         """Looks up pre-defined entities, e.g., "lt"
 
@@ -3826,10 +3842,11 @@ class XMLParser(PEP8Compatibility):
                     # internal, the latter being included because
                     # non-validating processors are not required to read
                     # them
-                    if e.is_open() or (e is entity):
+                    if self.is_recursive(e, entity):
                         self.well_formedness_error(
                             "No Recursion: entity %%%s; is already open" %
                             name)
+                    e.ref_entity = entity
                     if self.refMode == XMLParser.RefModeInEntityValue:
                         # Parameter entities are fed back into the parser
                         # somehow
diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 3e6c454..4fb5d70 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3253,6 +3253,8 @@ class XMLEntity(MigratedClass):
         self.buff_text = ul('')
         self.base_pos = None
         self.char_seek = None
+        #: the entity containing the reference to this entity
+        self.ref_entity = None
         self.chunk = None
         self.chars = ''
         self.char_pos = None
-- 
2.43.0


From 46841249eeba38ae14cd0e139d166e6ba4283d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 243/362] fix: system identifiers with characters that can't
 appear in a URI are escaped, others do not stop the parser

---
 pyslet/xml/structures.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 4fb5d70..423e574 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3840,12 +3840,19 @@ class XMLExternalID(object):
 
         Returns a :py:class:`pyslet.rfc2396.URI` resolved against
         :py:attr:`base` if applicable.  If there is no system identifier
-        then None is returned."""
+        then None is returned.  Characters that can't appear in a URI
+        are escaped (as per section 4.2.2), if the system identifier is
+        still not a valid URI reference None is returned too."""
         if self.system:
+            system = ''.join(
+                '%%%02X' % ord(c) if c <= ' ' or c in '<>"{}|\\^`\x7f'
+                else c for c in self.system)
+            try:
+                location = uri.URI.from_octets(system)
+            except uri.URIException:
+                return None
             if base:
-                location = uri.URI.from_octets(self.system).resolve(base)
-            else:
-                location = uri.URI.from_octets(self.system)
+                location = location.resolve(base)
             if not location.is_absolute():
                 cwd = uri.URI.from_path(
                     os.path.join(os.getcwd(), os.curdir))
-- 
2.43.0


From 17673e3812d1fcc74f1496fb0b3990511f9a0283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:28 +0000
Subject: [PATCH 244/362] fix: an entity that ends in the middle of a character
 raises UnicodeDecodeError

---
 pyslet/xml/structures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 423e574..9dbf01b 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3527,6 +3527,10 @@ class XMLEntity(MigratedClass):
             self.char_pos = 0
         if self.char_pos >= len(self.chars):
             self.the_char = None
+            rest = getattr(self.char_source, 'bytebuffer', None)
+            if rest:
+                # the data ends in the middle of a character
+                rest.decode(self.encoding)
         else:
             self.the_char = self.chars[self.char_pos]
             if self.literal_text:
-- 
2.43.0


From 15d591274844752d936e7ef2843184630463065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:26 +0000
Subject: [PATCH 245/362] fix: markup can't start with the last characters of
 an entity

---
 pyslet/xml/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 2d148fd..77d1286 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2678,6 +2678,7 @@ class XMLParser(PEP8Compatibility):
                     self.next_char()
                     if self.the_char == '-':
                         self.parse_required_literal('--')
+                        self.check_entity(centity, "[15] Comment")
                         self.parse_comment(True)
                         if (self.check_validity and
                                 self.elementType.content_type ==
@@ -2688,6 +2689,7 @@ class XMLParser(PEP8Compatibility):
                                 self.elementType.name)
                     elif self.the_char == '[':
                         self.parse_required_literal('[CDATA[')
+                        self.check_entity(centity, "[18] CDSect")
                         # can CDATA sections imply missing markup?
                         if self.sgml_omittag and not self.element.is_mixed():
                             # CDATA can only be put in elements that can
@@ -2702,6 +2704,7 @@ class XMLParser(PEP8Compatibility):
                 elif self.the_char == '?':
                     # PI
                     self.next_char()
+                    self.check_entity(centity, "[16] PI")
                     self.parse_pi(True)
                     if (self.check_validity and
                             self.elementType.content_type ==
-- 
2.43.0


From 4a6aeed27bc7d3e4b58083691ffa6fdee965fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 246/362] fix: searches for children honour sub_match and
 max_depth below the first level

---
 pyslet/xml/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 9dbf01b..1d3502e 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2099,7 +2099,7 @@ class Element(Node):
                 if isinstance(child, Element) and (
                         sub_match or not isinstance(child, child_class)):
                     for c in child.find_children_breadth_first(
-                            child_class, max_depth):
+                            child_class, sub_match, max_depth):
                         yield c
 
     @old_method('FindChildrenDepthFirst')
@@ -2133,7 +2133,7 @@ class Element(Node):
                     continue
             if isinstance(child, Element) and max_depth > 0:
                 for c in child.find_children_depth_first(
-                        child_class, max_depth):
+                        child_class, sub_match, max_depth):
                     yield c
 
     @old_method('FindParent')
-- 
2.43.0


From 0b2fa885effd05e7ef7059fdd8c87a83333ec3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 247/362] fix: setting an id that is taken leaves the element
 and the document as they were, setting None removes the id

---
 pyslet/xml/structures.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 1d3502e..d9f7d89 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1502,14 +1502,24 @@ class Element(Node):
         """Sets the id of the element
 
         The change is registered with the enclosing document.  If the id
-        is already taken then :class:`XMLIDClashError` is raised."""
-        if not self.is_valid_name(id):
+        is already taken then :class:`XMLIDClashError` is raised and the
+        existing id is unchanged.  If id is None the existing id is
+        removed."""
+        if id is not None and not self.is_valid_name(id):
             raise XMLIDValueError(id)
         doc = self.get_document()
         if doc:
+            old_id = self.id
             doc.unregister_element(self)
             self.id = id
-            doc.register_element(self)
+            if id is not None:
+                try:
+                    doc.register_element(self)
+                except XMLIDClashError:
+                    self.id = old_id
+                    if old_id is not None:
+                        doc.register_element(self)
+                    raise
         else:
             self.id = id
 
@@ -2094,7 +2104,7 @@ class Element(Node):
         for child in self.get_children():
             if isinstance(child, child_class):
                 yield child
-        if max_depth:
+        if max_depth > 0:
             for child in self.get_children():
                 if isinstance(child, Element) and (
                         sub_match or not isinstance(child, child_class)):
-- 
2.43.0


From b302f81110eace84b21ad0ddc42629c1a4a5ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 248/362] fix: unregistering an element does not remove the
 registration of another with the same id

---
 pyslet/xml/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index d9f7d89..b419354 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -758,7 +758,7 @@ class Document(Node):
         If the element has a uniquely defined ID it is removed from the
         internal ID table.  Called prior to detaching the element from
         the document."""
-        if element.id:
+        if element.id and self.idTable.get(element.id, None) is element:
             del self.idTable[element.id]
 
     @old_method('GetElementByID')
-- 
2.43.0


From 06d6e195ffcff4e984186f1e0e870c97d0cb5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 249/362] fix: elements with ids can be used to create a
 document; an id clash leaves the element an unregistered orphan

---
 pyslet/xml/structures.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index b419354..f07ef99 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -586,21 +586,20 @@ class Document(Node):
         self.root = None
         """The root element or None if no root element has been created
         yet."""
+        self.idTable = {}
         if root:
             if isinstance(root, Element):
                 # created from an instance
                 if root.parent:
                     raise ValueError(
                         "Element must be an orphan in Document constructor")
+                root.attach_to_parent(self)
                 self.root = root
-                root.parent = self
-                self.root.attach_to_doc(self)
             elif not issubclass(root, Element):
                 raise ValueError
             else:
                 self.root = root(self)
         self.set_base(base_uri)
-        self.idTable = {}
 
     def get_children(self):
         """Yields the root element"""
@@ -2182,7 +2181,11 @@ class Element(Node):
         if self.parent:
             raise XMLParentError("Expected orphan")
         self.parent = parent
-        self.attach_to_doc()
+        try:
+            self.attach_to_doc()
+        except XMLIDClashError:
+            self.detach_from_parent()
+            raise
 
     @old_method('AttachToDocument')
     def attach_to_doc(self, doc=None):
-- 
2.43.0


From 9141cc2134542d3fd6e9422eaff6ad71dc1d84d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 250/362] fix: getting an undefined id attribute raises
 KeyError

---
 pyslet/xml/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index f07ef99..c383701 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1693,7 +1693,8 @@ class Element(Node):
         according to the mapping."""
         if name in self._attrs:
             return self._attrs[name]
-        elif hasattr(self.__class__, 'ID') and name == self.__class__.ID:
+        elif (hasattr(self.__class__, 'ID') and
+                name == self.__class__.ID and self.id is not None):
             return self.id
         else:
             amap = self._amap()
-- 
2.43.0


From fe36941352ab028f60266fe752f544ce1e48f674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 251/362] fix: removing an element that is not the single child
 of its class raises XMLUnknownChild

---
 pyslet/xml/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index c383701..184d756 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2014,6 +2014,8 @@ class Element(Node):
                 child.detach_from_doc()
                 child.parent = None
                 setattr(self, factory_name, None)
+            elif isinstance(factory, Element):
+                raise XMLUnknownChild(child.xmlname)
             else:
                 raise TypeError("%s.%s in Element.remove_child" %
                                 (type(self).__name__, factory_name))
-- 
2.43.0


From 5a180f5273d9a877878ab2a0db71257570903f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 252/362] fix: the effective space policy can be resolved

---
 pyslet/xml/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 184d756..7af0470 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -712,7 +712,7 @@ class Document(Node):
         By default we reutrn None, indicating that no policy is in
         force.  Derived documents can oveerrid this behaviour to return
         either "preserve" or "default" to affect space handling."""
-        raise NotImplementedError
+        return None
 
     @old_method('ValidationError')
     def validation_error(self, msg, element, data=None, aname=None):
@@ -2686,7 +2686,7 @@ class Element(Node):
         else:
             self._attrs[_xml_space] = space
 
-    def resolve_space(self, space):
+    def resolve_space(self, space=None):
         """Returns the effective space policy for the current element.
 
         The policy is resolved using the value returned by
-- 
2.43.0


From c8e3eea581f63a4c18372ec96a7828dd4b6579de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 253/362] fix: validation errors in attributes can be logged

---
 pyslet/xml/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 7af0470..488ae15 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -731,7 +731,7 @@ class Document(Node):
         Prior to raising :class:`XMLValidityError` this method logs a
         suitable message at WARN level."""
         if aname:
-            logging.warning("%s (in %s.%s) %s", msg, aname,
+            logging.warning("%s (in %s.%s) %s", msg, element.xmlname, aname,
                             "" if data is None else repr(data))
         else:
             logging.warning("%s (in %s) %s", msg, element.xmlname,
-- 
2.43.0


From 3dcead4c9364d61d10d7296bcd4d6c0b2773cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 254/362] fix: an orphan copy of an element has the same name

---
 pyslet/xml/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 488ae15..a88a2e6 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2518,6 +2518,7 @@ class Element(Node):
             e = parent.add_child(self.__class__, self.get_xmlname())
         else:
             e = self.__class__(None)
+            e.set_xmlname(self.get_xmlname())
         attrs = self.get_attributes()
         for aname in dict_keys(attrs):
             e.set_attribute(aname, attrs[aname])
-- 
2.43.0


From 32be7a86e8ddfab920faf5274d408961c07767a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 255/362] fix: resetting an element's attributes removes its id

---
 pyslet/xml/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index a88a2e6..3d1edd8 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2408,6 +2408,7 @@ class Element(Node):
         one read to the next."""
         if reset_attrs:
             self._attrs = {}
+            self.set_id(None)
         for child in self._children:
             if isinstance(child, Element):
                 child.detach_from_doc()
-- 
2.43.0


From 19ff32a3be189a27fb54fa6c86aa22acd1cd5aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:13 +0000
Subject: [PATCH 256/362] fix: tabs and line feeds in attribute values survive
 serialisation

---
 pyslet/xml/structures.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 3d1edd8..ba5bdfe 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -270,7 +270,9 @@ def escape_char_data(src, quote=False):
     """Returns a unicode string with XML reserved characters escaped.
 
     We also escape return characters to prevent them being ignored.  If quote
-    is True then the string is returned as a quoted attribute value."""
+    is True then the string is returned as a quoted attribute value, in
+    which case tabs and line feeds are escaped too as attribute value
+    normalization would turn them into spaces."""
     data = []
     apos = 0
     quot = 0
@@ -283,6 +285,8 @@ def escape_char_data(src, quote=False):
             data.append('&gt;')
         elif c == '\r':
             data.append('&#xD;')
+        elif quote and c in '\t\n':
+            data.append('&#x%X;' % ord(c))
         elif c == '"':
             quot += 1
             data.append(c)
@@ -358,6 +362,8 @@ def escape_char_data7(src, quote=False):
             dst.append("&gt;")
         elif c == '\r':
             dst.append("&#xD;")
+        elif quote and c in '\t\n':
+            dst.append("&#x%X;" % ord(c))
         elif c == q:
             dst.append(qstr)
         else:
-- 
2.43.0


From 6d9d242ba06950f48809e5019f9e4be238e87974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:11 +0000
Subject: [PATCH 257/362] fix: empty strings of data do not add spaces or make
 elements unequal

---
 pyslet/xml/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index ba5bdfe..bbeb51e 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1788,7 +1788,8 @@ class Element(Node):
         the same list of children as :py:meth:`get_children` if
         'preserve' is in force.  Otherwise we remove any leading space
         and collapse all others to a single space character."""
-        children = self.get_children()
+        # empty strings of data are ignored, they'd be lost on serialisation
+        children = (c for c in self.get_children() if not is_text(c) or c)
         # If there are no children there is nothing to do, so we don't catch
         # StopIteration.
         try:
-- 
2.43.0


From 042faba87e22acaf5a1b2fac95970f790f2b0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:21 +0000
Subject: [PATCH 258/362] fix: carriage returns in CDATA sections survive
 serialisation

---
 pyslet/xml/structures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index bbeb51e..a5a1065 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -251,6 +251,9 @@ def escape_cdsect(src):
     Returns a character string enclosed in <![CDATA[ ]]> with ]]>
     replaced by the clumsy sequence: ]]>]]&gt;<![CDATA[
 
+    Carriage returns, which would be changed to line feeds by line end
+    normalization, are replaced similarly by: ]]>&#xD;<![CDATA[
+
     Degenerate case: an empty string is returned as an empty string
     """
     data = src.split(CDATA_END)
@@ -260,7 +263,8 @@ def escape_cdsect(src):
             result.append(ul(']]>]]&gt;<![CDATA['))
             result.append(d)
         result.append(CDATA_END)
-        return join_characters(result)
+        return join_characters(result).replace(
+            '\r', ul(']]>&#xD;<![CDATA['))
     else:
         return uempty
 
-- 
2.43.0


From aeb08059182c43f6961f4c905c7d4b942488af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:30 +0000
Subject: [PATCH 259/362] fix: a copy that fails with an id clash is not left
 in the tree

---
 pyslet/xml/structures.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index a5a1065..b39c11b 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2531,14 +2531,20 @@ class Element(Node):
         else:
             e = self.__class__(None)
             e.set_xmlname(self.get_xmlname())
-        attrs = self.get_attributes()
-        for aname in dict_keys(attrs):
-            e.set_attribute(aname, attrs[aname])
-        for child in self.get_children():
-            if is_text(child):
-                e.add_data(child)
-            else:
-                child.deepcopy(e)
+        try:
+            attrs = self.get_attributes()
+            for aname in dict_keys(attrs):
+                e.set_attribute(aname, attrs[aname])
+            for child in self.get_children():
+                if is_text(child):
+                    e.add_data(child)
+                else:
+                    child.deepcopy(e)
+        except XMLIDClashError:
+            # don't leave a partial copy behind
+            if parent:
+                parent.remove_child(e)
+            raise
         e.content_changed()
         return e
 
-- 
2.43.0


From 3324d9f3c5f40c29b81ab521f08dbf91632b4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 260/362] fix: document classes are found from the expanded
 name of the root element

---
 pyslet/xml/namespace.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 25986f5..7113549 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -619,16 +619,11 @@ class XMLNSParser(XMLParser):
 
         If no document class can be found, :py:class:`NSDocument` is
         returned."""
-        if xname[0] is None:
-            doc_class = XMLParser._nsdoc_class_table.get(xname, None)
-        else:
-            doc_class = XMLParser._nsdoc_class_table.get(xname, None)
-            if doc_class is None:
-                doc_class = XMLParser.DocumentClassTable.get(
-                    (xname[0], None), None)
-            if doc_class is None:
-                doc_class = XMLParser.DocumentClassTable.get(
-                    (None, xname[1]), None)
+        doc_class = self._nsdoc_class_table.get(xname, None)
+        if doc_class is None and xname[0] is not None:
+            doc_class = self._nsdoc_class_table.get((xname[0], None), None)
+        if doc_class is None:
+            doc_class = self._nsdoc_class_table.get((None, xname[1]), None)
         if doc_class is None:
             doc_class = NSDocument
         return doc_class
-- 
2.43.0


From d42fb50140012ec20ea194c2c98c7826d0593e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 261/362] fix: xmlns="" undoes the declaration of the default
 namespace

---
 pyslet/xml/namespace.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 7113549..2993899 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -147,10 +147,16 @@ class NSNode(Node):
             return XML_NAMESPACE
         ns = None
         ei = self
+        undeclared = False
         while ei is not None:
-            ns = ei._prefix_to_ns.get(prefix, None)
-            if ns:
-                break
+            if not undeclared:
+                ns = ei._prefix_to_ns.get(prefix, None)
+                if ns:
+                    break
+                elif ns is not None:
+                    # the declaration has been undone: xmlns=""
+                    ns = None
+                    undeclared = True
             if prefix == '':
                 ns = getattr(ei, 'default_ns', None)
                 if ns:
@@ -660,7 +666,7 @@ class XMLNSParser(XMLParser):
                 ns_uri = ns_defs.get('', None)
                 if ns_uri is None and context is not None:
                     ns_uri = context.get_ns('')
-                return (ns_uri, qname)
+                return (ns_uri or None, qname)
             else:
                 return (NO_NAMESPACE, qname)
         elif len(xname) == 2:
-- 
2.43.0


From c5f9a12701d472ff03cf7ef00d86184bd81a672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 262/362] fix: attributes with names that start xmlns are not
 namespace declarations

---
 pyslet/xml/namespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 2993899..c72c696 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -707,7 +707,7 @@ class XMLNSParser(XMLParser):
         :py:meth:`NSElement.set_attribute` by py:class:`XMLParser`."""
         ns = {}
         for aname in list(dict_keys(attrs)):
-            if aname.startswith('xmlns'):
+            if aname == 'xmlns' or aname.startswith('xmlns:'):
                 if len(aname) == 5:
                     # default ns declaration
                     ns[''] = attrs[aname]
-- 
2.43.0


From 28cdc6592d6299701048db3d4931790950c652c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 263/362] fix: the ids of namespace-aware elements are set and
 written once

---
 pyslet/html401.py       | 2 +-
 pyslet/xml/namespace.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 160ff61..aeb7e1f 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -2086,7 +2086,7 @@ class BaseFont(PreExclusionMixin, SpecialMixin, XHTMLElement):
         face    CDATA       #IMPLIED
             -- comma-separated list of font names -->"""
     XMLNAME = (XHTML_NAMESPACE, 'basefont')
-    ID = 'id'
+    ID = (xmlns.NO_NAMESPACE, 'id')
     XMLATTR_size = 'size'
     XMLATTR_color = ('color', Color, to_text)
     XMLATTR_face = ('face', CommaList.from_str, to_text)
diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index c72c696..e5d6f8f 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -388,7 +388,7 @@ class NSElement(NSNode, Element):
                 (name == (NO_NAMESPACE, self.__class__.ID) or
                  name == self.__class__.ID)):
             # we have to override ID handling as mangling is special
-            self.set_id(value)
+            return self.set_id(value)
         if is_string(name):
             return Element.set_attribute(self, (NO_NAMESPACE, name), value)
         else:
@@ -403,6 +403,8 @@ class NSElement(NSNode, Element):
                 (name == (NO_NAMESPACE, self.__class__.ID) or
                  name == self.__class__.ID)):
             # we have to override ID handling as mangling is special
+            if self.id is None:
+                raise KeyError("Attribute value undefined: %s" % repr(name))
             return self.id
         if is_string(name):
             return Element.get_attribute(self, (NO_NAMESPACE, name))
-- 
2.43.0


From 209a0c24f9fb5e52db334de1dd791596b23915af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 264/362] fix: expanded names are compared without a list of
 aliases

---
 pyslet/xml/namespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index e5d6f8f..e5ac563 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -875,7 +875,7 @@ def match_expanded_names(xname, xmatch, ns_aliases=None):
     if xname == xmatch:
         return True
     else:
-        for alias in ns_aliases:
+        for alias in ns_aliases or ():
             if (alias, xname[1]) == xmatch:
                 return True
     return False
-- 
2.43.0


From 19548694fee2085096345b829b85f4a3548d0dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 265/362] fix: attributes in the default namespace are written
 with a prefix

---
 pyslet/xml/namespace.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index e5ac563..97ad461 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -445,6 +445,16 @@ class NSElement(NSNode, Element):
         else:
             self._attrs[_xmlns_space] = space
 
+    def _get_attr_prefix(self, ns):
+        # returns a non-empty prefix for ns
+        prefix_map = self.get_prefix_map()
+        for prefix in sorted(dict_keys(prefix_map)):
+            if prefix and prefix_map[prefix] == ns:
+                return prefix
+        prefix = self.new_prefix()
+        self._prefix_to_ns[prefix] = ns
+        return prefix
+
     def write_xml_attributes(self, attributes,
                              escape_function=escape_char_data, root=False,
                              **kws):
@@ -463,6 +473,9 @@ class NSElement(NSNode, Element):
                 prefix = self.get_prefix(ns)
             if prefix is None:
                 prefix = self.make_prefix(ns)
+            elif not prefix and ns != NO_NAMESPACE:
+                # the default namespace does not apply to attributes
+                prefix = self._get_attr_prefix(ns)
             if prefix:
                 prefix = prefix + ':'
             attributes.append(
-- 
2.43.0


From f7ed3352e91d25b0d500252e47822b450e3ca9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 266/362] fix: elements with no namespace, or not in the one
 they declare as the default, are written in their own namespace

---
 pyslet/xml/namespace.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 97ad461..8f5138c 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -502,9 +502,19 @@ class NSElement(NSNode, Element):
             prefix = self.get_prefix(self.ns)
             if prefix is None:
                 # We need to declare our namespace
-                prefix = self.make_prefix(self.ns, '')
+                if '' in self._prefix_to_ns:
+                    prefix = self.make_prefix(self.ns)
+                else:
+                    prefix = self.make_prefix(self.ns, '')
         else:
             prefix = ''
+            if self.get_prefix_map().get('', ''):
+                # undo the declaration of the default namespace
+                if '' in self._prefix_to_ns:
+                    ns = self._prefix_to_ns.pop('')
+                    if self._ns_to_prefix.get(ns, None) == '':
+                        del self._ns_to_prefix[ns]
+                self.make_prefix('', '')
         if prefix:
             prefix = prefix + ':'
         self.write_xml_attributes(attributes, escape_function, root=root)
-- 
2.43.0


From 0f4c71b0d5beebf8662fdeb8a02aadde810b13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:14 +0000
Subject: [PATCH 267/362] fix: documents that break a namespace constraint
 raise a fatal error

---
 pyslet/xml/namespace.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 8f5138c..d661938 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -696,6 +696,10 @@ class XMLNSParser(XMLParser):
                 return (NO_NAMESPACE, qname)
         elif len(xname) == 2:
             nsprefix, local = xname
+            if (not self.dont_check_wellformedness and
+                    not (is_valid_ncname(nsprefix) and
+                         is_valid_ncname(local))):
+                raise XMLNSError("Illegal QName: %s" % qname)
             if nsprefix == 'xml':
                 return (XML_NAMESPACE, local)
             elif nsprefix == 'xmlns':
@@ -704,6 +708,10 @@ class XMLNSParser(XMLParser):
                 ns_uri = ns_defs.get(nsprefix, None)
                 if ns_uri is None and context is not None:
                     ns_uri = context.get_ns(nsprefix)
+                if (not ns_uri and use_default and
+                        not self.dont_check_wellformedness):
+                    # attributes are given the benefit of the doubt
+                    raise XMLNSError("Undeclared prefix: %s" % qname)
                 return (ns_uri, local)
         else:
             # something wrong with this element
@@ -740,8 +748,12 @@ class XMLNSParser(XMLParser):
                     # ns prefix declaration
                     ns[aname[6:]] = attrs[aname]
                 del attrs[aname]
+        if not self.dont_check_wellformedness:
+            self.check_ns_declarations(ns)
         for aname in list(dict_keys(attrs)):
             xname = self.expand_qname(aname, ns, False)
+            if xname in attrs and not self.dont_check_wellformedness:
+                raise XMLNSError("Attributes Unique: %s" % aname)
             attrs[xname] = attrs[aname]
             del attrs[aname]
         # Finally, we hide the ns object in the list of attributes so we
@@ -750,6 +762,25 @@ class XMLNSParser(XMLParser):
         attrs[(NO_NAMESPACE, ".ns")] = ns
         return ns
 
+    def check_ns_declarations(self, ns_defs):
+        """Checks the constraints on namespace declarations
+
+        ns_defs
+            A mapping of prefix to namespace URI
+
+        Raises XMLNSError if a prefix or namespace name is reserved or
+        if a prefix is undeclared."""
+        for prefix in ns_defs:
+            ns_uri = ns_defs[prefix]
+            if ':' in prefix:
+                raise XMLNSError("Illegal prefix: %s" % prefix)
+            if (prefix == 'xmlns' or ns_uri == XMLNS_NAMESPACE or
+                    (prefix == 'xml') != (ns_uri == XML_NAMESPACE)):
+                raise XMLNSError("Reserved Prefixes and Namespace Names: "
+                                 "%s=%s" % (prefix, repr(ns_uri)))
+            if prefix and not ns_uri:
+                raise XMLNSError("No Prefix Undeclaring: %s" % prefix)
+
     def get_stag_class(self, qname, attrs=None):
         """[40] STag
 
-- 
2.43.0


From 7883925bed6fe9d538bc5ea39546ebb06d6929b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:14 +0000
Subject: [PATCH 268/362] fix: elements in different namespaces are not equal

---
 pyslet/xml/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index b39c11b..13cab2b 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2472,7 +2472,7 @@ class Element(Node):
             return NotImplemented
         # print "Comparing: <%s>,
         # <%s>"%(str(self.xmlname),str(other.xmlname))
-        if self.xmlname != other.xmlname:
+        if self.get_xmlname() != other.get_xmlname():
             return False
         # sort and compare all attributes
         self_attrs = self.get_attributes()
-- 
2.43.0


From eac2f0b6dad3d9ae0b7e6e930ab12aea0921dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:37 +0000
Subject: [PATCH 269/362] fix: element names with the xmlns prefix raise a
 fatal error

---
 pyslet/xml/namespace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index d661938..206415f 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -703,6 +703,8 @@ class XMLNSParser(XMLParser):
             if nsprefix == 'xml':
                 return (XML_NAMESPACE, local)
             elif nsprefix == 'xmlns':
+                if use_default and not self.dont_check_wellformedness:
+                    raise XMLNSError("Reserved prefix: %s" % qname)
                 return (XMLNS_NAMESPACE, local)
             else:
                 ns_uri = ns_defs.get(nsprefix, None)
-- 
2.43.0


From 7ef98af7996e52311f21b1205bcf149b01b626d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 270/362] fix: a child of an element declared EMPTY is a
 validity error

---
 pyslet/xml/parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 77d1286..6d9f205 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -524,11 +524,15 @@ class ContentParticleCursor(object):
         expected = {}
         end_tag = None
         if self.state == ContentParticleCursor.START_STATE:
-            for name in dict_keys(self.element_type.particle_map):
-                if name:
-                    expected[name] = True
-                else:
-                    end_tag = "</%s>" % self.element_type.name
+            if self.element_type.particle_map is None:
+                # EMPTY (or unparsed), only the end tag is expected
+                end_tag = "</%s>" % self.element_type.name
+            else:
+                for name in dict_keys(self.element_type.particle_map):
+                    if name:
+                        expected[name] = True
+                    else:
+                        end_tag = "</%s>" % self.element_type.name
         elif self.state == ContentParticleCursor.PARTICLE_STATE:
             for p in self.plist:
                 for name in dict_keys(p.particle_map):
-- 
2.43.0


From f19243655103571fc351a316c0597e7f370cbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 271/362] fix: fixed attribute values are compared after
 normalization

---
 pyslet/xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 6d9f205..f150c4b 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2354,7 +2354,7 @@ class XMLParser(PEP8Compatibility):
                                 "specification for attribute %s altered by "
                                 "normalization (externally defined tokenized "
                                 "type)" % a)
-                        attrs[a] = new_value
+                        attrs[a] = value = new_value
                 if adef.presence == xml.XMLAttributeDefinition.FIXED:
                     if value != adef.defaultValue:
                         self.validity_error(
-- 
2.43.0


From 946005d938a5ad838ea0a426db39dc53cebd9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 272/362] fix: empty-element tags are checked against the
 content model

---
 pyslet/xml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index f150c4b..7c5047f 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2295,6 +2295,8 @@ class XMLParser(PEP8Compatibility):
                     production +
                     ": element implied by PCDATA had empty content %s" %
                     self.element)
+        elif self.check_validity:
+            self.check_expected_particle('')
         self.element.content_changed()
         self.element = save_element
         self.elementType = save_element_type
-- 
2.43.0


From 0902285bbbb14e61f66348e8e0697fc17359bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 273/362] fix: unmatched IDREF is named in the validity error

---
 pyslet/xml/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 7c5047f..f55ed86 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1195,7 +1195,8 @@ class XMLParser(PEP8Compatibility):
             for idref in dict_keys(self.idRefTable):
                 if idref not in self.idTable:
                     self.validity_error(
-                        "IDREF: %s does not match any ID attribute value")
+                        "IDREF: %s does not match any ID attribute value" %
+                        idref)
         self.parse_misc()
         if self.the_char is not None and not self.dont_check_wellformedness:
             self.well_formedness_error(
-- 
2.43.0


From b5017afb8d44ca2da83e6f3a1c3464b866d03ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 274/362] fix: comments and instructions in undeclared elements
 crash a validating parse

---
 pyslet/xml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index f55ed86..00780f9 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2688,6 +2688,7 @@ class XMLParser(PEP8Compatibility):
                         self.check_entity(centity, "[15] Comment")
                         self.parse_comment(True)
                         if (self.check_validity and
+                                self.elementType is not None and
                                 self.elementType.content_type ==
                                 xml.ElementType.Empty):
                             self.validity_error(
@@ -2714,6 +2715,7 @@ class XMLParser(PEP8Compatibility):
                     self.check_entity(centity, "[16] PI")
                     self.parse_pi(True)
                     if (self.check_validity and
+                            self.elementType is not None and
                             self.elementType.content_type ==
                             xml.ElementType.Empty):
                         self.validity_error(
-- 
2.43.0


From 2928fcefabadfda5d319b0744e2a4bc9a17c2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:28 +0000
Subject: [PATCH 275/362] fix: empty CDATA sections are not allowed in element
 content

---
 pyslet/xml/parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 00780f9..0bd7b70 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2782,7 +2782,8 @@ class XMLParser(PEP8Compatibility):
         Data is handled by calling
         :py:meth:`~pyslet.xml.structures.Element.add_data`
         even if the data is optional white space."""
-        if data and self.element:
+        if (data or cdata) and self.element:
+            # an empty CDATA section is still content
             if self.check_validity and self.elementType:
                 check_standalone = (
                     self.declared_standalone() and
@@ -2805,8 +2806,9 @@ class XMLParser(PEP8Compatibility):
                     self.validity_error(
                         "Element Valid: character data is not allowed in "
                         "element %s" % self.elementType.name)
-            self.element.add_data(data)
-            self.dataCount += len(data)
+            if data:
+                self.element.add_data(data)
+                self.dataCount += len(data)
 
     def unhandled_data(self, data):
         """[43] content
-- 
2.43.0


From eff28f70b0787775c9ebd919f03f8d2615b64b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:28 +0000
Subject: [PATCH 276/362] fix: undeclared notations in attribute declarations
 are validity errors

---
 pyslet/xml/parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 0bd7b70..8238a4b 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1828,6 +1828,18 @@ class XMLParser(PEP8Compatibility):
                                     "No Notation on Empty Element: "
                                     "attribute %s on element %s cannot have "
                                     "NOTATION type" % (aname, ename))
+            for ename in dict_keys(self.dtd.attribute_lists):
+                adefs = self.dtd.attribute_lists[ename]
+                for aname in dict_keys(adefs):
+                    adef = adefs[aname]
+                    if adef.type != xml.XMLAttributeDefinition.NOTATION:
+                        continue
+                    for nname in dict_keys(adef.values):
+                        if self.dtd.get_notation(nname) is None:
+                            self.validity_error(
+                                "Notation Attributes: notation %s used in "
+                                "declaration of attribute %s has not been "
+                                "declared" % (nname, aname))
             for ename in dict_keys(self.dtd.general_entities):
                 edef = self.dtd.general_entities[ename]
                 if edef.notation and edef.notation not in self.dtd.notations:
-- 
2.43.0


From 6e0dbf84bef71e7aab02b444f408f04a38abd8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:48 +0000
Subject: [PATCH 277/362] fix: matching non-deterministic content models takes
 exponential time

---
 pyslet/xml/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 8238a4b..c6b39eb 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -500,10 +500,12 @@ class ContentParticleCursor(object):
                         new_plist = None
                         self.state = ContentParticleCursor.END_STATE
                         break
-                    if isinstance(ps, list):
-                        new_plist = new_plist + ps
-                    else:
-                        new_plist.append(ps)
+                    if not isinstance(ps, list):
+                        ps = [ps]
+                    for new_p in ps:
+                        # each particle need only be considered once
+                        if not any(new_p is old_p for old_p in new_plist):
+                            new_plist.append(new_p)
             if new_plist is None or len(new_plist) > 0:
                 # success if we got to the end state or have found
                 # particles
-- 
2.43.0


From bfc3d670a8959e8b0f1425f50d30860baa0ad873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 278/362] fix: floats are encoded with the digits of their
 value

---
 pyslet/xml/xsdatatypes.py | 134 ++++++++++++--------------------------
 1 file changed, 40 insertions(+), 94 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 5931b70..0e2f0e2 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -1,5 +1,6 @@
 #! /usr/bin/env python
 
+import decimal
 import logging
 import math
 import types
@@ -107,41 +108,25 @@ def decimal_from_str(src):
 
 
 _uzero = ul("0")
-_uone = ul("1")
-_unine = ul("9")
 _udot = ul(".")
 _uexp = ul("E")
 
 
-def _round_digits(digits):
-    """Rounds a list of digits to the machine precision.  The function
-    returns True if the rounding operation overflowed, this indicates
-    that *digits* is one digit longer than it was when passed in."""
-    if len(digits) > float_info.dig:
-        # we need to add some rounding to remove spurious digits
-        pos = len(digits) - 1
-        while pos >= 0:
-            if pos > float_info.dig:
-                digits[pos] = _uzero
-            elif pos == float_info.dig:
-                rtest = ord(digits[pos])
-                digits[pos] = _uzero
-                if rtest < 0x35:
-                    # no rounding needed
-                    break
-            elif digits[pos] == "9":
-                digits[pos] = _uzero
-            else:
-                digits[pos] = character(ord(digits[pos]) + 1)
-                # rounding done
-                break
-            pos = pos - 1
-        if pos < 0:
-            # overflow
-            digits[0:0] = _uone
-            return True
-    else:
-        return False
+_decimal_context = decimal.Context(prec=1000, rounding=decimal.ROUND_HALF_UP)
+
+
+def _exponent(value, digits):
+    """Returns the decimal exponent of *value* when rounded to have
+    *digits* digits after the point in its mantissa."""
+    return int(('%.*e' % (digits, value)).split('e')[1])
+
+
+def _round_scaled(value, exponent):
+    """Returns the list of digits in the integer nearest to *value*
+    divided by 10 raised to the power of *exponent*."""
+    scaled = decimal.Decimal(value).scaleb(-exponent, _decimal_context)
+    return list(to_text(int(scaled.to_integral_value(
+        decimal.ROUND_HALF_UP, _decimal_context))))
 
 
 def _strip_zeros(digits):
@@ -173,63 +158,45 @@ def decimal_to_str(value, digits=None, strip_zeros=True, **kws):
         To override this behaviour and return exactly *digits* decimal
         places set *stripZeros* to False."""
     strip_zeros = kws.get('stripZeros', strip_zeros)
+    if math.isnan(value) or math.isinf(value):
+        raise ValueError("Invalid value for decimal: %s" %
+                         double_to_str(value))
     if value < 0:
         sign = '-'
         value = -value
     else:
         sign = ''
+    # the number of digits that make up the precision of float
+    max_digits = float_info.dig - 1 - _exponent(value, float_info.dig - 1)
     if digits is None:
-        # calculate the appropriate number of digits
-        try:
-            x = math.log10(value)
-            m, e = math.modf(x)
-            e = int(e)
-            # If e is 0 then we have a number in the open range [1.0,10.0)
-            # which means that we need 1 fewer digits than the maximum
-            # precision of float.  If e is 1 we need 2 fewer, and so on...
-            # We can therefore deduce the formula for digits:
-            digits = float_info.dig - (e + 1)
-            if digits < 1:
-                # by default we always display one digit
-                digits = 1
-        except ValueError:
-            # not sure if this is possible, a number so small log10 fails
-            value = 0.0
-            digits = 1
+        # by default we always display at least one digit
+        digits = max(1, max_digits)
     elif digits < 0:
         # forced to display no digits, result won't be in canonical form
         digits = 0
     if value == 0:
         # canonical representation of 0 is 0.0
-        if digits is None:
-            return "0.0"
-        elif digits == 0:
+        if digits == 0:
             return "0"
         elif strip_zeros:
             return "0.0"
         else:
             return "0." + ("0" * digits)
-    elif math.isnan(value) or math.isinf(value):
-        raise ValueError("Invalid value for decimal: %s" %
-                         double_to_str(value))
-    f, i = math.modf(value * math.pow(10, digits))
-    if f >= 0.5:
-        i = i + 1
-    dstring = list(str(int(i)))
-    # assume all digits in dstring are significant
-    _round_digits(dstring)
+    # digits beyond the precision of float are always 0
+    round_digits = min(digits, max_digits)
+    dstring = _round_scaled(value, -round_digits)
+    dstring = dstring + ["0"] * (digits - round_digits)
     if len(dstring) <= digits:
         # we need to zero pad on the left
         dstring[0:0] = ["0"] * (digits + 1 - len(dstring))
-        dlen = digits + 1
-    else:
+    if digits:
+        # now put the point in the right place
         dlen = len(dstring)
-    # now put the point in the right place
-    dstring[dlen - digits:dlen - digits] = _udot
+        dstring[dlen - digits:dlen - digits] = _udot
+        if strip_zeros:
+            _strip_zeros(dstring)
     if sign:
         dstring[0:0] = sign
-    if strip_zeros:
-        _strip_zeros(dstring)
     return ''.join(dstring)
 
 
@@ -361,36 +328,15 @@ def double_to_str(value, digits=None, strip_zeros=True, **kws):
         value = -value
     else:
         sign = ''
-    try:
-        x = math.log10(value)
-    except ValueError:
-        # not sure if this is possible, a number so small log10 fails
-        return "0.0E0"
-    m, e = math.modf(x)
-    e = int(e)
-    r, m = math.modf(math.pow(10, m + digits))
-    if r >= 0.5:
-        m = m + 1
-    dstring = list(str(int(m)))
-    # m should originally have been in [1,10) but we need to check for
-    # over/underflow
-    if len(dstring) > digits + 1:
-        # overflow, strip the trailing zero
-        e = e + 1
-        del dstring[-1]
-    elif len(dstring) <= digits:
-        # underflow - probably impossible, e.g,
-        # pow(10,log10(1.000)+N)->999....9(.9)
-        e = e - 1
-        dstring.append(_unine)
-    # inevitably, after this len(dstring)==digits+1
-    if _round_digits(dstring):
-        del dstring[-1]
-    assert dstring[0] != '0'
+    # digits beyond the precision of float are always 0
+    round_digits = min(digits, float_info.dig - 1)
+    e = _exponent(value, round_digits)
+    dstring = _round_scaled(value, e - round_digits)
+    dstring = dstring + [_uzero] * (digits - round_digits)
     if len(dstring) > 1:
         dstring[1:1] = _udot
-    if strip_zeros:
-        _strip_zeros(dstring)
+        if strip_zeros:
+            _strip_zeros(dstring)
     if sign:
         dstring[0:0] = sign
     dstring.append(_uexp)
-- 
2.43.0


From f6e597f76c947af9676b61c53344cec829828fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 279/362] fix: large exponents can be decoded and decimal
 fractions are rounded once

---
 pyslet/xml/xsdatatypes.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 0e2f0e2..64a6302 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -225,9 +225,10 @@ def float_from_str(src):
             raise ValueError(
                 "Invalid lexical representation of double: %s" % src)
         m, e = s
-        m = decimal_from_str(m)
-        e = integer_from_str(e)
-        result = m * math.pow(10, e)
+        decimal_from_str(m)
+        integer_from_str(e)
+        # checks that the exponent is an integer and then rounds just once
+        result = float('e'.join(s))
     elif s in ("inf", "-inf", "nan"):
         return float(s)
     else:
@@ -277,9 +278,9 @@ def double_from_str(src):
             raise ValueError(
                 "Invalid lexical representation of double: %s" % src)
         m, e = s
-        m = decimal_from_str(m)
-        e = integer_from_str(e)
-        return m * math.pow(10, e)
+        decimal_from_str(m)
+        integer_from_str(e)
+        return float('e'.join(s))
     elif s in ("inf", "-inf", "nan"):
         return float(s)
     else:
-- 
2.43.0


From a0e4e25b10232fd36c8502d573b4031c27e7c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 280/362] fix: not-a-number is encoded as NaN

---
 pyslet/xml/xsdatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 64a6302..b59a873 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -321,7 +321,7 @@ def double_to_str(value, digits=None, strip_zeros=True, **kws):
         else:
             return "0." + ("0" * digits) + "E0"
     elif math.isnan(value):
-        return "NAN"
+        return "NaN"
     elif math.isinf(value):
         return "INF" if value > 0 else "-INF"
     if value < 0:
-- 
2.43.0


From c6d124e625150e734720d97fa4fe7ea4a4c54027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 281/362] fix: durations followed by other text, and empty
 durations, raise DateTimeError

---
 pyslet/xml/xsdatatypes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index b59a873..ee07ff8 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -372,13 +372,12 @@ class Duration(iso8601.Duration):
 
     def set_from_string(self, duration_str):
         if is_text(duration_str):
-            if duration_str[0] == '-':
+            if duration_str.startswith('-'):
                 self.sign = -1
                 duration_str = duration_str[1:]
             else:
                 self.sign = 1
-            p = iso8601.ISO8601Parser(duration_str)
-            return p.parse_duration(self)
+            return iso8601.Duration.set_from_string(self, duration_str)
         else:
             raise TypeError
 
-- 
2.43.0


From fb26d78300c3a07e02a6c940bd01b768066cc5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 282/362] fix: negative durations are not equal to positive
 ones

---
 pyslet/xml/xsdatatypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index ee07ff8..5e84381 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -388,6 +388,11 @@ class Duration(iso8601.Duration):
             self.sign = 1
         iso8601.Duration.set_from_duration(self, src)
 
+    def __eq__(self, other):
+        if not isinstance(other, Duration):
+            other = Duration(other)
+        return self.sign == other.sign and iso8601.Duration.__eq__(self, other)
+
 
 @old_function("DecodeDateTime")
 def datetime_from_str(src):
-- 
2.43.0


From 954c29ae8133e8e2ad9904c9a30584aaaa744839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 283/362] fix: collapsing leading white space adds no space
 after the first character

---
 pyslet/xml/xsdatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 5e84381..a672669 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -854,7 +854,7 @@ def white_space_collapse(value):
         else:
             if output and got_space:
                 output.append(character(0x20))
-                got_space = False
+            got_space = False
             output.append(c)
     return ''.join(output)
 
-- 
2.43.0


From d1d1c574916ceb08de1ea0dba827293af190c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 284/362] fix: dictionaries of enumeration values hold all the
 values

---
 pyslet/xml/xsdatatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index a672669..42426a9 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -665,8 +665,8 @@ class Enumeration(EnumBase):
         result = {}
         for s in src.split():
             sv = decoder(s)
-        if sv not in result:
-            result[sv] = s
+            if sv not in result:
+                result[sv] = s
         return result
 
     @classmethod
-- 
2.43.0


From 3664b08c355dcc8e78f4a5d9627e5c5fbec95cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 285/362] fix: an empty string is not an enumeration value in
 title case

---
 pyslet/xml/xsdatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 42426a9..0af1f8b 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -615,7 +615,7 @@ class Enumeration(EnumBase):
         decoded then ValueError is raised."""
         try:
             src = src.strip()
-            src = src[0].upper() + src[1:].lower()
+            src = src[:1].upper() + src[1:].lower()
             return cls.decode[src]
         except KeyError:
             raise ValueError("Can't decode %s from %s" % (cls.__name__, src))
-- 
2.43.0


From 1e412d63efe1fd5a90190aea15a2fd8a5831b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 286/362] fix: regular expressions match with any of their
 branches and must be complete

---
 pyslet/xml/xsdatatypes.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 0af1f8b..47d427f 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -876,8 +876,9 @@ class RegularExpression(UnicodeMixin):
         self.src = force_text(src)
         p = RegularExpressionParser(src)
         pyre = p.require_reg_exp()
+        p.require_end("RegularExpression")
         #: the compiled python regular expression
-        self.p = compile(pyre)
+        self.p = compile(ul("(?:%s)\\Z") % pyre)
 
     def __unicode__(self):
         return self.src
@@ -887,11 +888,7 @@ class RegularExpression(UnicodeMixin):
 
     def match(self, target):
         """Returns True if the expression matches *target*."""
-        m = self.p.match(target)
-        if m is None or m.end(0) < len(target):
-            return False
-        else:
-            return True
+        return self.p.match(target) is not None
 
 
 RegularExpressionError = ParserError
-- 
2.43.0


From ce862d070c645f56aa273937257e04d7e2472f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 287/362] fix: requests are dispatched to the pattern that
 matches after trying a longer name

---
 pyslet/wsgi.py | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c9ccc3a..bb57f81 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -922,33 +922,37 @@ class WSGIApp(DispatchNode):
                 path = ['']
             i = 0
             node = self
+            # the node with the active wildcard
             wildcard = None
             stack = []
-            while i < len(path):
-                p = path[i]
-                old_node = node
-                wild_node = old_node._nodes.get('*', None)
-                node = old_node._nodes.get(p, None)
-                if node:
-                    if wild_node:
-                        # this is a fall-back node, push it
-                        stack.append((i, wild_node, wildcard))
-                elif wild_node:
-                    node = wild_node
-                elif wildcard:
-                    # if there is an active wildcard, use it
-                    break
-                elif stack:
-                    i, node, wildcard = stack.pop()
+            while True:
+                if i < len(path):
+                    p = path[i]
+                    wild_node = node._nodes.get('*', None)
+                    next_node = node._nodes.get(p, None)
+                    if next_node:
+                        if wild_node:
+                            # this is a fall-back node, push it
+                            stack.append((i, wild_node, wildcard))
+                    else:
+                        next_node = wild_node
+                elif node._handler is not None:
+                    return node._handler(context)
                 else:
-                    break
+                    next_node = None
+                if next_node is None:
+                    if stack and stack[-1][2] is wildcard:
+                        # no wildcard is closer than the last fall-back
+                        i, next_node, wildcard = stack.pop()
+                    elif wildcard:
+                        # if there is an active wildcard, use it
+                        return wildcard._wildcard(context)
+                    else:
+                        break
+                node = next_node
                 if node._wildcard is not None:
-                    wildcard = node._wildcard
+                    wildcard = node
                 i += 1
-            if node and node._handler is not None:
-                return node._handler(context)
-            if wildcard:
-                return wildcard(context)
             # we didn't find a handler
             return self.error_page(context, 404)
         except MethodNotAllowed:
-- 
2.43.0


From 48f276e297edbd61306f3d2c2f820b14bed91dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 288/362] fix: static file names with non-ASCII characters are
 not found instead of failing

---
 pyslet/wsgi.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index bb57f81..50fe1b0 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -998,7 +998,7 @@ class WSGIApp(DispatchNode):
                 # ldb-label test from the cookie module to ensure we
                 # have a very limited syntax.  Apologies if you wanted
                 # fancy URLs.
-                if not cookie.is_ldh_label(p.encode('ascii')):
+                if not self._is_label(p):
                     raise PageNotFound
                 target_path = os.path.join(target_path, p)
                 if not os.path.isdir(target_path):
@@ -1011,8 +1011,8 @@ class WSGIApp(DispatchNode):
                 # last component must be a filename.ext form
                 splitp = p.split('.')
                 if (len(splitp) != 2 or
-                        not cookie.is_ldh_label(splitp[0].encode('ascii')) or
-                        not cookie.is_ldh_label(splitp[1].encode('ascii'))):
+                        not self._is_label(splitp[0]) or
+                        not self._is_label(splitp[1])):
                     raise PageNotFound
                 filename = p
                 ext = splitp[1]
@@ -1033,6 +1033,14 @@ class WSGIApp(DispatchNode):
         context.add_header("Content-Type", str(ctype))
         return self.file_response(context, target_path)
 
+    @staticmethod
+    def _is_label(p):
+        """Returns True if the character string *p* is a valid label"""
+        try:
+            return cookie.is_ldh_label(p.encode('ascii'))
+        except UnicodeError:
+            return False
+
     def file_response(self, context, target_path):
         """Returns a file from the file system
 
-- 
2.43.0


From 887e90ae0a3ec77df41c38e6d4a0e1cc44f58976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 289/362] fix: errors with non-ASCII messages generate an
 internal error page

---
 pyslet/wsgi.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 50fe1b0..ae69e84 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1196,9 +1196,14 @@ class WSGIApp(DispatchNode):
 
     def internal_error(self, context, err):
         context.set_status(500)
-        data = force_bytes(
+        data = to_text(
             "%i %s\r\n%s" % (context.status, context.status_message, str(err)))
-        context.add_header("Content-Type", "text/plain")
+        try:
+            data = data.encode('ascii')
+            context.add_header("Content-Type", "text/plain")
+        except UnicodeError:
+            data = data.encode('utf-8')
+            context.add_header("Content-Type", "text/plain; charset=utf-8")
         context.add_header("Content-Length", str(len(data)))
         try:
             context.start_response()
-- 
2.43.0


From 1afd77a1d6c7b40eb167b8b08f407b89e6b52fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 290/362] fix: missing integer parameters are returned as None

---
 pyslet/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index ae69e84..d26c5fc 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -457,6 +457,9 @@ class WSGIContext(object):
         If the parameter is missing from the form then None is returned,
         if the parameter is present but is not a valid integer then
         :class:`BadRequest` is raised."""
+        form = self.get_form()
+        if name not in form:
+            return None
         value = self.get_form_string(name, 256)
         try:
             return long2(value)
-- 
2.43.0


From 1d660ecc88fc1a2dbf062def8963ea68c07ce4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 291/362] fix: a cipher can be created with the time its key
 becomes active

---
 pyslet/wsgi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index d26c5fc..5f93c0a 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1591,17 +1591,19 @@ class AppCipher(object):
             # we need to find a key that hasn't expired
             with key_set.open() as keys:
                 t = edm.EDMValue.from_type(edm.SimpleType.DateTime)
-                t.set_from_value(time.time())
+                t.set_from_value(iso.TimePoint.from_now_utc())
                 filter = odata.CommonExpression.from_str(
-                    "Expires gte :t", {'t': t})
+                    "Expires ge :t", {'t': t})
                 keys.set_filter(filter)
+                keys.set_orderby(
+                    odata.CommonExpression.orderby_from_str("Expires asc"))
                 # Only interested in keys that haven't expired
-                old_keys = keys.values()
+                old_keys = list(keys.values())
                 if not old_keys:
                     raise RuntimeError("AppCipher: no current key")
                 old_key = old_keys[0]
                 self.old_num = old_key['KeyNum'].value
-                self.old_key = self.decrypt(old_key['KeyString'])
+                self.old_key = self.decrypt(old_key['KeyString'].value)
                 self.old_expires = when.get_unixtime()
                 self.ciphers[self.old_num] = self.new_cipher(self.old_key)
         else:
-- 
2.43.0


From 6d7dba9c4b3fda86506cab7b342c1812bfd292c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 292/362] fix: signatures with a salt of the wrong length don't
 verify, empty messages can be signed

---
 pyslet/wsgi.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 5f93c0a..400852f 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1810,9 +1810,12 @@ class AppCipher(object):
             num = int(num)
             salt = binascii.unhexlify(salt)
             hash = binascii.unhexlify(hash)
-            if smessage:
+            if len(salt) != 4:
+                # don't let bytes move between the salt and the message
+                raise ValueError
+            if smessage is not None:
                 smessage = unescape_data(smessage)
-                if message:
+                if message is not None:
                     # must match exactly!
                     if message != smessage:
                         raise ValueError
@@ -1869,7 +1872,7 @@ class AppCipher(object):
             if new_pos < 0:
                 result.append(signature[pos:])
                 while len(result) < 4:
-                    result.append('')
+                    result.append(None)
                 return result
             result.append(signature[pos:new_pos])
             pos = new_pos + 1
-- 
2.43.0


From 36c91dc34f29c3977b16f7206f673b0f6810a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 293/362] fix: signatures with an unknown key number raise
 ValueError

---
 pyslet/wsgi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 400852f..eee9a82 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1822,9 +1822,11 @@ class AppCipher(object):
                 else:
                     message = smessage
             with self.lock:
-                cipher = self._get_cipher(num)
-                if cipher is None:
-                    return ValueError
+                try:
+                    cipher = self._get_cipher(num)
+                except RuntimeError:
+                    # an unknown key, or one that is too old
+                    raise ValueError
                 if cipher.hash(salt + message) == hash:
                     return message
                 else:
-- 
2.43.0


From 1e3bfd9e47122df651247ab5e3ef7152c102b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 294/362] fix: the default metadata has the expiry time of
 application keys

---
 pyslet/wsgi_metadata.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/wsgi_metadata.xml b/pyslet/wsgi_metadata.xml
index 9a8261d..7e4e013 100755
--- a/pyslet/wsgi_metadata.xml
+++ b/pyslet/wsgi_metadata.xml
@@ -16,6 +16,8 @@
                 <Property Name="KeyNum" Nullable="false" Type="Edm.Int32"/>
                 <Property Name="KeyString" Nullable="false"
                     Type="Edm.String" MaxLength="256" Unicode="false"/>
+                <Property Name="Expires" Nullable="false"
+                    Type="Edm.DateTime" Precision="0"/>
             </EntityType>
         </Schema>
     </edmx:DataServices>
-- 
2.43.0


From 52679e42602c8199917ac7222b13465dea76a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 295/362] fix: a session with a bad date raises ValueError

---
 pyslet/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index eee9a82..1737a00 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1959,7 +1959,10 @@ class CookieSession(UnicodeMixin):
             if len(fields) >= 3:
                 self.sid = fields[0]
                 self.established = (fields[1] == '1')
-                self.last_seen = iso.TimePoint.from_str(fields[2])
+                try:
+                    self.last_seen = iso.TimePoint.from_str(fields[2])
+                except iso.DateTimeError:
+                    raise ValueError("Bad CookieSession: %s" % src)
             else:
                 raise ValueError("Bad CookieSession: %s" % src)
         else:
-- 
2.43.0


From 0dc15361c628863d7ad77b70ef41497cc3a06adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 296/362] fix: bad session cookies are reported by the cookie
 test page

---
 pyslet/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 1737a00..9922240 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2369,7 +2369,7 @@ class SessionApp(WSGIDataApp):
                            "cookie tampering detected\n"
                            "cookie=%s\nUserAgent: %s",
                            context.environ.get('PATH_INFO', ''),
-                           cmsg, ua)
+                           cmsg_signed, ua)
             self.clear_session_cookie(context)
             return self.error_page(context, 400)
         if csession.sid != qsession.sid or csession.established:
-- 
2.43.0


From 27d6bf1e097b530ff142fdd5a474a73f59533cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:08 +0000
Subject: [PATCH 297/362] fix: non-ASCII session cookies are treated as
 tampering

---
 pyslet/wsgi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 9922240..a491cd0 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2116,7 +2116,8 @@ class SessionApp(WSGIDataApp):
         if context.session is None:
             cookies = context.get_cookies()
             csrf_match = ""
-            s_signed = cookies.get(self._session_cookie, b'').decode('ascii')
+            s_signed = cookies.get(self._session_cookie, b'').decode(
+                'ascii', 'replace')
             self.set_session(context)
             if context.environ['REQUEST_METHOD'].upper() == 'POST':
                 # check the CSRF token
@@ -2152,7 +2153,8 @@ class SessionApp(WSGIDataApp):
         cookie in the browser."""
         context.session = None
         cookies = context.get_cookies()
-        s_signed = cookies.get(self._session_cookie, b'').decode('ascii')
+        s_signed = cookies.get(self._session_cookie, b'').decode(
+            'ascii', 'replace')
         if s_signed and self._test_cookie in cookies:
             try:
                 s_msg = self.app_cipher.check_signature(s_signed)
@@ -2358,7 +2360,7 @@ class SessionApp(WSGIDataApp):
             self.clear_session_cookie(context)
             return self.error_page(context, 400)
         cmsg_signed = cookies.get(
-            self._session_cookie, b'MISSING').decode('ascii')
+            self._session_cookie, b'MISSING').decode('ascii', 'replace')
         try:
             cmsg = self.app_cipher.check_signature(cmsg_signed)
             csession = self.SessionClass(cmsg.decode('utf-8'))
-- 
2.43.0


From 28a96fcd821d8e619f4c4dd20441967ade48bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:14 +0000
Subject: [PATCH 298/362] fix: the old key is stored under its own number when
 it expires while being stored

---
 pyslet/wsgi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index a491cd0..0fd7fb8 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1690,7 +1690,7 @@ class AppCipher(object):
         Eventually you will have to update encrypted data in the data
         store."""
         with self.lock:
-            self.old_num = self.key_num
+            old_num = self.old_num = self.key_num
             self.old_key = self.key
             self.old_expires = when.get_unixtime()
             # we should already have a cipher for this key
@@ -1704,7 +1704,8 @@ class AppCipher(object):
                     self.old_key))))
         with self.key_set.open() as keys:
             e = keys.new_entity()
-            e.set_key(self.old_num)
+            # self.old_num is cleared by any thread that finds it expired
+            e.set_key(old_num)
             e['KeyString'].set_from_value(old_key_encrypted)
             e['Expires'].set_from_value(when)
             try:
@@ -1713,7 +1714,7 @@ class AppCipher(object):
                 # Presumably this entity already exists, possible race
                 # condition on change_key - load the entity from the old
                 # key number to raise KeyError if not
-                e = keys[self.old_num]
+                e = keys[old_num]
 
     def _get_current_cipher(self):
         if self.old_expires:
-- 
2.43.0


From a05a77161a848a956bfb3a54ea8573800b493db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:22 +0000
Subject: [PATCH 299/362] fix: the name of the CSRF field is read from the
 documented setting

---
 pyslet/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 0fd7fb8..2f116cd 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2076,7 +2076,7 @@ class SessionApp(WSGIDataApp):
             settings.setdefault('cookie', 'sid'))
         cls._test_cookie = force_bytes(
             settings.setdefault('cookie_test', 'ctest'))
-        cls.csrf_token = settings.setdefault('crsf_token', 'csrftoken')
+        cls.csrf_token = settings.setdefault('csrftoken', 'csrftoken')
         settings.setdefault('cookie_test_age', 8640000)
 
     @classmethod
-- 
2.43.0


From a186c9d7c5b23504a3743ef4ff0b92d1ee4181a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:03 +0000
Subject: [PATCH 300/362] fix: malformed Cookie headers are bad requests

---
 pyslet/wsgi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 2f116cd..14a7b33 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -477,8 +477,11 @@ class WSGIContext(object):
         if self._cookies is None:
             cookie_values = self.environ.get('HTTP_COOKIE', None)
             if cookie_values is not None:
-                p = cookie.CookieParser(cookie_values)
-                self._cookies = p.require_cookie_string()
+                try:
+                    p = cookie.CookieParser(cookie_values)
+                    self._cookies = p.require_cookie_string()
+                except ValueError:
+                    raise BadRequest("Bad Cookie header")
                 for name in self._cookies:
                     value = self._cookies[name]
                     if isinstance(value, set):
-- 
2.43.0


From 78e823ab881bbcfec9678077d2d3aad9bfeb8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 301/362] fix: launch requests read from the WSGI input can be
 parsed

---
 pyslet/imsbltiv1p0.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 2f49eef..70072d6 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -748,6 +748,12 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
         This method also checks the LTI message type and protocol
         version and will raise :class:`LTIProtcolError` if this is not a
         recognized launch request."""
+        if isinstance(body_string, bytes) and bytes is not str:
+            try:
+                body_string = body_string.decode('ascii')
+            except UnicodeDecodeError:
+                # not a URL encoded form
+                raise LTIAuthenticationError
         try:
             result, request = self.endpoint.validate_request(
                 url, command, body_string, headers)
-- 
2.43.0


From b83b844cb9901d2c7ea80a018c01010e44e55b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 302/362] fix: launch parameters are only taken from content
 covered by the signature

---
 pyslet/imsbltiv1p0.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 70072d6..7c0426d 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -759,12 +759,16 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
                 url, command, body_string, headers)
             if not result:
                 raise LTIAuthenticationError
+            if not request.decoded_body:
+                # the signature does not cover the body (it is not a
+                # form) so the parameters in it can't be trusted
+                raise LTIAuthenticationError
             # grab the parameters as a dictionary from body_string
             parameters = parse_qs(body_string)
             for n, v in dict_items(parameters):
                 parameters[n] = ','.join(v)
             # the consumer key is in the oauth_consumer_key param
-            consumer = self.lookup_consumer(parameters['oauth_consumer_key'])
+            consumer = self.lookup_consumer(request.client_key)
             message_type = parameters.get('lti_message_type', '')
             if (message_type.lower() != LTI_MESSAGE_TYPE):
                 logging.warn("Unknown lti_message_type: %s", message_type)
-- 
2.43.0


From 41a4e83b236b33adf38808c697f55425b3ce8ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 303/362] fix: launches with unsupported signature methods or
 tokens are not authorized

---
 pyslet/imsbltiv1p0.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 7c0426d..687e1e1 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -755,8 +755,12 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
                 # not a URL encoded form
                 raise LTIAuthenticationError
         try:
-            result, request = self.endpoint.validate_request(
-                url, command, body_string, headers)
+            try:
+                result, request = self.endpoint.validate_request(
+                    url, command, body_string, headers)
+            except (NotImplementedError, ValueError):
+                # RSA signatures and access tokens are not supported
+                raise LTIAuthenticationError
             if not result:
                 raise LTIAuthenticationError
             if not request.decoded_body:
-- 
2.43.0


From e7c770cd26d7ccfd12a744e49d96c3d78b2f3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 304/362] fix: unknown consumer keys with non-ASCII characters
 raise KeyError

---
 pyslet/imsbltiv1p0.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 687e1e1..fb44d5f 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -22,7 +22,6 @@ from pyslet.py2 import (
     byte_value,
     dict_items,
     dict_keys,
-    force_bytes,
     long2,
     parse_qs,
     range3,
@@ -716,9 +715,11 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
 
         Returns a :class:`ToolConsumer` instance or raises a KeyError if
         key is not the key of any known consumer."""
+        if not isinstance(key, bytes):
+            # encode in the same way as new_from_values
+            key = key.encode('utf-8')
         with self.consumers.open() as collection:
-            return ToolConsumer(collection[wsgi.key60(force_bytes(key))],
-                                self.cipher)
+            return ToolConsumer(collection[wsgi.key60(key)], self.cipher)
 
     @old_method('Launch')
     def launch(self, command, url, headers, body_string):
-- 
2.43.0


From 0397c007e6f5be70de92cc3cf23078d8512df0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 305/362] fix: of two simultaneous launches with one nonce the
 second is not authorized

---
 pyslet/imsbltiv1p0.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index fb44d5f..fc2334e 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -694,7 +694,11 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
                 e = collection.new_entity()
                 e.set_key(key)
                 e['LastSeen'].set_from_value(now)
-                collection.insert_entity(e)
+                try:
+                    collection.insert_entity(e)
+                except edm.ConstraintError:
+                    # someone else used this nonce at the same time
+                    return False
                 return True
 
     dummy_client = ul(
-- 
2.43.0


From 660cc0d1f39ef0428c2b7a2cf9a6e0666257af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 306/362] fix: launches with unknown roles are given no
 permissions for them

---
 pyslet/imsbltiv1p0.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index fc2334e..1340a22 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -28,7 +28,7 @@ from pyslet.py2 import (
     ul
     )
 from pyslet.pep8 import MigratedClass, old_method
-from pyslet.rfc2396 import URI
+from pyslet.rfc2396 import URI, URIException
 from pyslet.urn import URN
 from pyslet.xml import structures as xml
 
@@ -950,9 +950,16 @@ class ToolProviderApp(wsgi.SessionApp):
             roles = context.parameters['roles'].split(',')
             for role in roles:
                 srole = role.strip()
-                role_uri = URI.from_octets(srole)
-                if not role_uri.is_absolute():
-                    role_uri = ROLE_HANDLES.get(srole, None)
+                role_uri = ROLE_HANDLES.get(srole, None)
+                if role_uri is None:
+                    try:
+                        role_uri = URI.from_octets(srole)
+                    except URIException:
+                        # not a role at all
+                        continue
+                    if not role_uri.is_absolute():
+                        # an unknown handle
+                        continue
                 permissions |= self.get_permissions(role_uri)
         context.permissions = permissions
 
@@ -990,11 +997,15 @@ class ToolProviderApp(wsgi.SessionApp):
         integers are combined to provide an overall permissions
         integer."""
         logging.debug("Launch role: %s", str(role))
-        if is_subrole(role, ROLE_HANDLES['Instructor']):
-            return (cls.READ_PERMISSION | cls.WRITE_PERMISSION |
-                    cls.CONFIGURE_PERMISSION)
-        elif is_subrole(role, ROLE_HANDLES['Learner']):
-            return cls.READ_PERMISSION
+        try:
+            if is_subrole(role, ROLE_HANDLES['Instructor']):
+                return (cls.READ_PERMISSION | cls.WRITE_PERMISSION |
+                        cls.CONFIGURE_PERMISSION)
+            elif is_subrole(role, ROLE_HANDLES['Learner']):
+                return cls.READ_PERMISSION
+        except ValueError:
+            # not an LTI role
+            pass
         return 0
 
     def get_user_display_name(self, context, user=None):
-- 
2.43.0


From 52aee6daddada32a3a33cb91802e48d9419c8890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 307/362] fix: unknown and missing context types are ignored

---
 pyslet/imsbltiv1p0.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 1340a22..6c6caf3 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -485,8 +485,7 @@ class ToolConsumer(object):
                     context['Label'].set_from_value(label)
                     update = True
                 if ctypes:
-                    ctypes.sort()
-                    ctypes = ' '.join([str(x) for x in ctypes])
+                    ctypes = ' '.join(sorted(str(x) for x in ctypes))
                     if context['Types'].value != ctypes:
                         context['Types'].set_from_value(ctypes)
                         update = True
@@ -500,8 +499,7 @@ class ToolConsumer(object):
                 context['Title'].set_from_value(title)
                 context['Label'].set_from_value(label)
                 if ctypes:
-                    ctypes.sort()
-                    ctypes = ' '.join([str(x) for x in ctypes])
+                    ctypes = ' '.join(sorted(str(x) for x in ctypes))
                     context['Types'].set_from_value(ctypes)
                 collection.insert_entity(context)
         return context
@@ -902,9 +900,15 @@ class ToolProviderApp(wsgi.SessionApp):
         gtypes = []
         for group_type in group_types:
             stype = group_type.strip()
-            gtype_uri = URI.from_octets(stype)
-            if not gtype_uri.is_absolute():
-                gtype_uri = CONTEXT_TYPE_HANDLES.get(stype, None)
+            gtype_uri = CONTEXT_TYPE_HANDLES.get(stype, None)
+            if gtype_uri is None:
+                try:
+                    gtype_uri = URI.from_octets(stype)
+                except URIException:
+                    continue
+                if not gtype_uri.is_absolute():
+                    # missing or an unknown handle
+                    continue
             gtypes.append(gtype_uri)
         group_title = context.parameters.get('context_title', '')
         group_label = context.parameters.get('context_label', '')
-- 
2.43.0


From b00914ab089a632da149f10770baa58fef00d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 308/362] fix: the first of duplicate resources is used

---
 pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 6c6caf3..5e6454c 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -562,7 +562,7 @@ class ToolConsumer(object):
             else:
                 logging.warn("Duplicate resource: %s:%s",
                              self.entity['Key'].value, resource_link_id)
-                resource = resource[0]
+                resource = resources[0]
         return resource
 
     def get_user(self, user_id, name_given=None, name_family=None,
-- 
2.43.0


From 69df2bee087ead9c8c8a8bed0eed4fc3f3ca2d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 309/362] fix: visits are merged into an established session

---
 pyslet/imsbltiv1p0.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 5e6454c..ae29e12 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1145,7 +1145,7 @@ class ToolProviderApp(wsgi.SessionApp):
         """Overridden to update the Session ID in any associated visits"""
         with self.container['Visits'].open() as collection:
             sid = edm.EDMValue.from_type(edm.SimpleType.String)
-            sid.set_from_value(merge_session.session.sid)
+            sid.set_from_value(merge_session.sid)
             filter = odata.CommonExpression.from_str(
                 "Session eq :sid", {'sid': sid})
             collection.set_filter(filter)
@@ -1155,6 +1155,8 @@ class ToolProviderApp(wsgi.SessionApp):
             # there should be only one visit in this session if there
             # are more then something strange is going on
             sid.set_from_value(context.session.sid)
+            collection.set_filter(odata.CommonExpression.from_str(
+                "Session eq :sid", {'sid': sid}))
             for merge_visit in merge_visits:
                 merge_resource = merge_visit['Resource'].get_entity()
                 merge_consumer = merge_resource['Consumer'].get_entity()
@@ -1182,7 +1184,7 @@ class ToolProviderApp(wsgi.SessionApp):
                             collection.update_entity(old_visit)
                 merge_visit['Session'].set_from_value(context.session.sid)
                 # just update the Session field
-                merge_visit.set_expand(None, {'Session': None})
+                merge_visit.expand(None, {'Session': None})
                 collection.update_entity(merge_visit)
 
     def load_visit(self, context):
-- 
2.43.0


From 57e5db14b344b60b88b5663cc6d802e4e9085085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 310/362] fix: comments in the file of consumers are ignored

---
 pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index ae29e12..9e55434 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1438,7 +1438,7 @@ class BLTIToolProvider(ToolProvider):
         Lines starting with a '#' are ignored as comments."""
         lines = f.readlines()
         for line in lines:
-            if line and line[0] == '#':
+            if line.startswith(b'#'):
                 continue
             fields = line.split()
             if len(fields) >= 2:
-- 
2.43.0


From 32d2a968353db6a15fba2f82ac95e18aafbf1142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 311/362] fix: consumers are saved with the encoding they are
 loaded with

---
 pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 9e55434..6812c71 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1465,4 +1465,4 @@ class BLTIToolProvider(ToolProvider):
                 consumers[consumer.key] = consumer.secret
             keys = sorted(dict_keys(consumers))
             for key in keys:
-                f.write(("%s %s\n" % (key, consumers[key])).encode('ascii'))
+                f.write(("%s %s\n" % (key, consumers[key])).encode('utf-8'))
-- 
2.43.0


From 3a5062b6b108debb9790a46313770a4d6c5f0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 312/362] fix: the handle Administrator/Developer stands for
 its own role

---
 pyslet/imsbltiv1p0.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 6812c71..c74e100 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -185,8 +185,7 @@ ROLE_HANDLES = {
     'Administrator/Support':
         URI.from_octets('urn:lti:role:ims/lis/Administrator/Support'),
     'Administrator/Developer':
-        URI.from_octets('urn:lti:role:ims/lis/Administrator/'
-                        'ExternalDeveloper'),
+        URI.from_octets('urn:lti:role:ims/lis/Administrator/Developer'),
     'Administrator/SystemAdministrator':
         URI.from_octets('urn:lti:role:ims/lis/Administrator/'
                         'SystemAdministrator'),
-- 
2.43.0


From 78daa9276e3e19e77dd75cb847ab368c1483acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 313/362] fix: deleting a file that isn't local raises
 CPProtocolError

---
 pyslet/imscpv1p2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imscpv1p2.py b/pyslet/imscpv1p2.py
index d9a5ef7..5d15f85 100644
--- a/pyslet/imscpv1p2.py
+++ b/pyslet/imscpv1p2.py
@@ -897,7 +897,7 @@ class ContentPackage(MigratedClass):
         if not isinstance(furl, uri.FileURL):
             # We cannot delete non-file objects (though in future
             # we should support HTTP DELETE)
-            return CPProtocolError(str(furl))
+            raise CPProtocolError(str(furl))
         full_path = furl.get_virtual_file_path()
         if not full_path.isfile():
             raise CPFileTypeError(full_path)
-- 
2.43.0


From b44631c633e8959415ac1092b44bfa9b91dfb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 314/362] fix: files outside the package are refused with
 CPFilePathError

---
 pyslet/imscpv1p2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imscpv1p2.py b/pyslet/imscpv1p2.py
index 5d15f85..35febda 100644
--- a/pyslet/imscpv1p2.py
+++ b/pyslet/imscpv1p2.py
@@ -823,7 +823,7 @@ class ContentPackage(MigratedClass):
             rel_path = path_in_path(full_path, self.dPath)
             if (rel_path is None or
                     to_text(rel_path).lower() == 'imsmanifest.xml'):
-                raise CPFilePathError(furl.path)
+                raise CPFilePathError(full_path)
             # normalise the case ready to put in the file table
             rel_path = rel_path.normcase()
             f = resource.add_child(resource.FileClass)
-- 
2.43.0


From aa6536a965bd30b9a00a974b0883942bade22a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 315/362] fix: generated file names are compared with those in
 the package

---
 pyslet/imscpv1p2.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/imscpv1p2.py b/pyslet/imscpv1p2.py
index 35febda..3acb29a 100644
--- a/pyslet/imscpv1p2.py
+++ b/pyslet/imscpv1p2.py
@@ -780,16 +780,17 @@ class ContentPackage(MigratedClass):
             raise CPFilePathError(suggested_path)
         fpath = fpath.normcase()
         # Now we can try and make it unique
-        path_str = fpath
+        path = fpath
         path_extra = 0
-        while path_str in self.fileTable:
+        while path in self.fileTable:
             if not path_extra:
                 path_extra = random.randint(0, 0xFFFF)
             fname, fExt = fpath.splitext()
-            path_str = '%s_%X%s' % (to_text(fname), path_extra, fExt)
+            path = self.dPath.__class__(
+                '%s_%X%s' % (to_text(fname), path_extra, fExt))
             path_extra = path_extra + 1
-        # we have the path string
-        return self.dPath.__class__(path_str)
+        # we have the path
+        return path
 
     @old_method('File')
     def new_file(self, resource, href):
-- 
2.43.0


From e9b1abc583069f566160c9c1897e87abc103aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 316/362] fix: the path of the manifest is never unique

---
 pyslet/imscpv1p2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/imscpv1p2.py b/pyslet/imscpv1p2.py
index 3acb29a..cf223a7 100644
--- a/pyslet/imscpv1p2.py
+++ b/pyslet/imscpv1p2.py
@@ -782,7 +782,8 @@ class ContentPackage(MigratedClass):
         # Now we can try and make it unique
         path = fpath
         path_extra = 0
-        while path in self.fileTable:
+        while (path in self.fileTable or
+                to_text(path).lower() == 'imsmanifest.xml'):
             if not path_extra:
                 path_extra = random.randint(0, 0xFFFF)
             fname, fExt = fpath.splitext()
-- 
2.43.0


From 031086127cfb56df82c32a1db4365b20329265e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 317/362] fix: paths that climb out of the package are not
 inside it

---
 pyslet/imscpv1p2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/imscpv1p2.py b/pyslet/imscpv1p2.py
index cf223a7..bd7e6fe 100644
--- a/pyslet/imscpv1p2.py
+++ b/pyslet/imscpv1p2.py
@@ -644,6 +644,7 @@ class ContentPackage(MigratedClass):
         Returns None if fpath is not inside the package."""
         rel_path = []
         assert isinstance(fpath, vfs.VirtualFilePath)
+        fpath = fpath.normpath()
         while fpath != self.dPath:
             fpath, tail = fpath.split()
             if not fpath or not tail:
-- 
2.43.0


From c6d8c30f0a9ac40e5eac9b2ad2cacfe16805e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 318/362] fix: file names in archives that are marked as UTF-8
 are not decoded again

---
 pyslet/imscpv1p2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imscpv1p2.py b/pyslet/imscpv1p2.py
index bd7e6fe..449f9c8 100644
--- a/pyslet/imscpv1p2.py
+++ b/pyslet/imscpv1p2.py
@@ -667,7 +667,7 @@ class ContentPackage(MigratedClass):
                         path.mkdir()
                     if isinstance(path_seg, bytes):
                         path_seg = path_seg.decode('utf-8')
-                    elif not py2 and (zfi.flag_bits ^ 0x800):
+                    elif not py2 and not (zfi.flag_bits & 0x800):
                         # Python3 decodes as cp437 if the flag is clear
                         # we force utf-8 in this case
                         path_seg = path_seg.encode('cp437').decode('utf-8')
-- 
2.43.0


From 06be2aa7801267d5a6b6bfc86fe276bd33ea9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:24 +0000
Subject: [PATCH 319/362] fix: files can be deleted from packages that refer to
 external files

---
 pyslet/imscpv1p2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/imscpv1p2.py b/pyslet/imscpv1p2.py
index 449f9c8..726c940 100644
--- a/pyslet/imscpv1p2.py
+++ b/pyslet/imscpv1p2.py
@@ -916,7 +916,8 @@ class ContentPackage(MigratedClass):
             del_list = []
             for f in r.File:
                 # Does f point to the same file?
-                if f.package_path(self) == rel_path:
+                fpath = f.package_path(self)
+                if fpath is not None and fpath == rel_path:
                     del_list.append(f)
             for f in del_list:
                 r.delete_file(f)
-- 
2.43.0


From 5927061abdff40c435be051864e642e20cb72faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:46 +0000
Subject: [PATCH 320/362] fix: deleting a file or dependency of a resource
 deletes that one and not one like it

---
 pyslet/imscpv1p2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/imscpv1p2.py b/pyslet/imscpv1p2.py
index 726c940..87171d7 100644
--- a/pyslet/imscpv1p2.py
+++ b/pyslet/imscpv1p2.py
@@ -275,14 +275,14 @@ class Resource(CPElement):
 
     @old_method('DeleteFile')
     def delete_file(self, f):
-        index = self.File.index(f)
+        index = [x is f for x in self.File].index(True)
         f.detach_from_doc()
         f.parent = None
         del self.File[index]
 
     @old_method('DeleteDependency')
     def delete_dependency(self, d):
-        index = self.Dependency.index(d)
+        index = [x is d for x in self.Dependency].index(True)
         d.detach_from_doc()
         d.parent = None
         del self.Dependency[index]
-- 
2.43.0


From d0775bf009dad747505f2bc1f5d4aab82bbcff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 321/362] fix: references to template variables in attribute
 values are recognised

---
 pyslet/qtiv2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/core.py b/pyslet/qtiv2/core.py
index 7b30c36..5756e27 100755
--- a/pyslet/qtiv2/core.py
+++ b/pyslet/qtiv2/core.py
@@ -381,6 +381,6 @@ def get_template_ref(value):
     the value does not look like a template variable reference."""
     if value.startswith('{') and value.endswith('}'):
         id_value = value[1:-1]
-        if xsi.is_valid_ncname(id_value):
+        if xmlns.is_valid_ncname(id_value):
             return id_value
     return None
-- 
2.43.0


From fc3b090023a61cdb8965384666995c321cc3ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:00 +0000
Subject: [PATCH 322/362] fix: both tolerances of equal are read

---
 pyslet/qtiv2/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 544eec6..90b8077 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1259,7 +1259,7 @@ class Equal(NOperator):
         'toleranceMode',
         ToleranceMode.from_str_lower,
         ToleranceMode.to_str)
-    XMLATTR_tolerance = 'tolerance'
+    XMLATTR_tolerance = ('tolerance', None, None, list)
     XMLATTR_includeLowerBound = (
         'includeLowerBound', xsi.boolean_from_str, xsi.boolean_to_str)
     XMLATTR_includeUpperBound = (
-- 
2.43.0


From aeadef62873743bd748bf5565139cd9c73ca4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:00 +0000
Subject: [PATCH 323/362] fix: default gives the default value of template
 variables

---
 pyslet/qtiv2/expressions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 90b8077..e54a21e 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -176,7 +176,10 @@ class Default(Expression):
 
     def evaluate(self, state):
         try:
-            state.GetDeclaration(self.identifier)
+            d = state.GetDeclaration(self.identifier)
+            if isinstance(d, variables.TemplateDeclaration):
+                # the state has no defaults for template variables
+                return d.get_default_value()
             return state[self.identifier + ".DEFAULT"]
         except KeyError:
             raise core.ProcessingError(
-- 
2.43.0


From c4c5ee93d028f722c01cf594ae5cc6e73c660de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:31 +0000
Subject: [PATCH 324/362] fix: references to undeclared template variables are
 no crash

---
 pyslet/qtiv2/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 52964ef..eab9f8c 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -1843,7 +1843,10 @@ class SessionState(MigratedClass):
     @old_method('IsTemplate')
     def is_template(self, var_name):
         """Return True if *var_name* is the name of a template variable."""
-        d = self.get_declaration(var_name)
+        try:
+            d = self.get_declaration(var_name)
+        except KeyError:
+            return False
         return isinstance(d, TemplateDeclaration)
 
     def __len__(self):
-- 
2.43.0


From 0220a3c0fedf6e8e4951797162cb7e01524cd2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:59 +0000
Subject: [PATCH 325/362] fix: copies of multiple containers have all the
 values

---
 pyslet/qtiv2/variables.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index eab9f8c..5bc7b7f 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -17,6 +17,7 @@ from ..pep8 import MigratedClass, old_method
 from ..py2 import (
     BoolMixin,
     byte,
+    dict_items,
     dict_keys,
     force_text,
     is_text,
@@ -938,12 +939,18 @@ class MultipleContainer(Container):
         the resulting container is empty.
 
         If *base_type* is None the base type specified when the container was
-        constructed is assumed."""
+        constructed is assumed.
+
+        The value of another multiple container, a dictionary that maps the
+        values to their frequencies, is also accepted."""
         if base_type is not None:
             self.baseType = base_type
         if value is None:
             self.value = None
         else:
+            if isinstance(value, dict):
+                value = [v for v, freq in dict_items(value)
+                         for i in range3(freq)]
             self.value = {}
             for v in value:
                 if v is None:
-- 
2.43.0


From 067b47f65864d7a88dacf2938ebcc6b7f5776a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:59 +0000
Subject: [PATCH 326/362] fix: records without fields are NULL

---
 pyslet/qtiv2/variables.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 5bc7b7f..2d7c67a 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -1048,12 +1048,12 @@ class RecordContainer(Container):
             r['pi']=FloatValue()    # a NULL value
             r['pi']                 # raises KeyError"""
         if value is None:
-            if self.value and field_identifier in self.value:
-                del self.value[field_identifier]
+            if field_identifier in self:
+                del self[field_identifier]
         elif isinstance(value, SingleValue):
             if not value:
-                if self.value and field_identifier in self.value:
-                    del self.value[field_identifier]
+                if field_identifier in self:
+                    del self[field_identifier]
             else:
                 if self.value is None:
                     self.value = {field_identifier: value}
@@ -1065,6 +1065,9 @@ class RecordContainer(Container):
     def __delitem__(self, field_identifier):
         if self.value:
             del self.value[field_identifier]
+            if not self.value:
+                # empty containers are NULL
+                self.value = None
         else:
             raise KeyError(field_identifier)
 
-- 
2.43.0


From 0a57fe12dc81353457ac55cd5e54762d1630e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:59 +0000
Subject: [PATCH 327/362] fix: containers can be converted to character strings

---
 pyslet/qtiv2/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 2d7c67a..ce13e22 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -854,10 +854,10 @@ class Container(Value):
         if self.baseType is None:
             return ul(
                 "%s container of unknown base type") % Cardinality.to_str(
-                    self.Cardinality)
+                    self.cardinality())
         else:
             return ul("%s container of base type %s") % (
-                Cardinality.to_str(self.Cardinality),
+                Cardinality.to_str(self.cardinality()),
                 BaseType.to_str(self.baseType))
 
     @classmethod
-- 
2.43.0


From c9475a8f5a51ccad776f246d2e8e557885a65d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:36 +0000
Subject: [PATCH 328/362] fix: records are not silently left out of containers

---
 pyslet/qtiv2/expressions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index e54a21e..215d818 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -439,6 +439,9 @@ class Multiple(NOperator):
         values = list(self.evaluate_children(state))
         vinput = []
         for v in values:
+            if v.Cardinality() == variables.Cardinality.record:
+                raise core.ProcessingError(
+                    "Ordered or Record values not allowed in Mutiple")
             if v.baseType is None:
                 continue
             if base_type is None:
@@ -487,6 +490,9 @@ class Ordered(NOperator):
         values = list(self.evaluate_children(state))
         vinput = []
         for v in values:
+            if v.Cardinality() == variables.Cardinality.record:
+                raise core.ProcessingError(
+                    "Multiple or Record values not allowed in Ordered")
             if v.baseType is None:
                 continue
             if base_type is None:
-- 
2.43.0


From 76eec01d83c873702dd8082c75a83e9895528d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:36 +0000
Subject: [PATCH 329/362] fix: references to template variables that are NULL
 make the result NULL

---
 pyslet/qtiv2/expressions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 215d818..cd96fc0 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -345,6 +345,8 @@ class RandomInteger(Expression):
         min = self.integer_or_template_ref(state, self.min)
         max = self.integer_or_template_ref(state, self.max)
         step = self.integer_or_template_ref(state, self.step)
+        if min is None or max is None or step is None:
+            return variables.IntegerValue()
         return variables.IntegerValue(
             min +
             step *
@@ -379,6 +381,8 @@ class RandomFloat(Expression):
     def evaluate(self, state):
         min = self.float_or_template_ref(state, self.min)
         max = self.float_or_template_ref(state, self.max)
+        if min is None or max is None:
+            return variables.FloatValue()
         # strictly speaking, we can never return max, but due to possible
         # rounding this point is academic
         return variables.FloatValue(min + random.random() * (max - min))
@@ -1050,6 +1054,8 @@ class AnyN(NOperator):
                                       *[x.Cardinality() for x in values])
         variables.check_base_types(variables.BaseType.boolean,
                                    *[x.baseType for x in values])
+        if min is None or max is None:
+            return variables.BooleanValue()
         ntrue = nnull = 0
         for v in values:
             if v.value:
@@ -1189,7 +1195,7 @@ class PatternMatch(UnaryOperator):
         variables.check_base_types(value.baseType, variables.BaseType.string)
         variables.check_cardinalities(
             value.Cardinality(), variables.Cardinality.single)
-        if value:
+        if value and pattern is not None:
             try:
                 re = xsi.RegularExpression(pattern)
                 return variables.BooleanValue(re.match(value.value))
@@ -1305,6 +1311,8 @@ class Equal(NOperator):
                     t1 = self.float_or_template_ref(state, self.tolerance[1])
                 else:
                     t1 = t0
+                if t0 is None or t1 is None:
+                    return variables.BooleanValue()
                 if self.toleranceMode == ToleranceMode.absolute:
                     lower_bound = v1v - t0
                     upper_bound = v1v + t1
@@ -1403,6 +1411,8 @@ class EqualRounded(NOperator):
             v1v = float(v1.value)
             v2v = float(v2.value)
             figures = self.integer_or_template_ref(state, self.figures)
+            if figures is None:
+                return variables.BooleanValue()
             if self.roundingMode == RoundingMode.decimalPlaces:
                 return variables.BooleanValue(
                     xsi.decimal_to_str(
-- 
2.43.0


From 944fe987a51d75cbda9f6b2c90f53cb403320bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:36 +0000
Subject: [PATCH 330/362] fix: powers outside the range of float are NULL

---
 pyslet/qtiv2/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index cd96fc0..f70ee02 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1892,7 +1892,7 @@ class Power(NOperator):
             v2v = float(v2.value)
             try:
                 return variables.FloatValue(math.pow(v1v, v2v))
-            except ValueError:
+            except (ValueError, OverflowError):
                 # If the resulting value is outside the value set defined by
                 # float (not including positive and negative infinity) then the
                 # operator shall result in NULL
-- 
2.43.0


From 8b83f1d8e6f09fe09471062f6517cb842eb82c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:36 +0000
Subject: [PATCH 331/362] fix: integers read from text are checked for range

---
 pyslet/qtiv2/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index ce13e22..43ec284 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -711,7 +711,7 @@ class IntegerValue(SingleValue):
             else:
                 self.value = int(value)
         elif is_text(value):
-            self.value = xsi.integer_from_str(value)
+            self.set_value(xsi.integer_from_str(value))
         else:
             self.value_error(value)
 
-- 
2.43.0


From ea23baf4c5d3b74eecf1b24b8f49df6efca7d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:55 +0000
Subject: [PATCH 332/362] fix: delete checks the cardinality of values with
 unknown base types

---
 pyslet/qtiv2/expressions.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index f70ee02..bc8befa 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -774,6 +774,19 @@ class Delete(NOperator):
             raise core.ProcessingError(
                 "Delete requires two sub-expressions, found %i" % len(values))
         singleValue, containerValue = values
+        if singleValue.Cardinality() not in (variables.Cardinality.single,
+                                             None):
+            raise core.ProcessingError(
+                "Expected single value, found %s" %
+                variables.Cardinality.to_str(
+                    singleValue.Cardinality()))
+        if containerValue.Cardinality() not in (variables.Cardinality.ordered,
+                                                variables.Cardinality.multiple,
+                                                None):
+            raise core.ProcessingError(
+                "Expected ordered or multiple value, found %s" %
+                variables.Cardinality.to_str(
+                    containerValue.Cardinality()))
         if containerValue.baseType is None:
             return variables.Container.NewValue(
                 containerValue.Cardinality(),
@@ -788,19 +801,6 @@ class Delete(NOperator):
         if singleValue.baseType == variables.BaseType.duration:
             raise core.ProcessingError(
                 "Delete operator must not be used on duration values")
-        if singleValue.Cardinality() not in (variables.Cardinality.single,
-                                             None):
-            raise core.ProcessingError(
-                "Expected single value, found %s" %
-                variables.Cardinality.to_str(
-                    singleValue.Cardinality()))
-        if containerValue.Cardinality() not in (variables.Cardinality.ordered,
-                                                variables.Cardinality.multiple,
-                                                None):
-            raise core.ProcessingError(
-                "Expected ordered or multiple value, found %s" %
-                variables.Cardinality.to_str(
-                    containerValue.Cardinality()))
         result = variables.Container.NewValue(
             containerValue.Cardinality(), containerValue.baseType)
         if singleValue and containerValue:
-- 
2.43.0


From 3096dd7415cf6e082327994c53302e6371452e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:13 +0000
Subject: [PATCH 333/362] fix: member refuses records

---
 pyslet/qtiv2/expressions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index bc8befa..493729f 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -722,6 +722,10 @@ class Member(NOperator):
             raise core.ProcessingError(
                 "Member requires two sub-expressions, found %i" % len(values))
         singleValue, containerValue = values
+        for v in values:
+            if v.Cardinality() == variables.Cardinality.record:
+                raise core.ProcessingError(
+                    "Record values not allowed in member")
         if singleValue.baseType is None or containerValue.baseType is None:
             return variables.BooleanValue()
         if singleValue.baseType != containerValue.baseType:
-- 
2.43.0


From bc0ec9e23a749474b762f1d9889bdef34831e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:35 +0000
Subject: [PATCH 334/362] fix: offsetting the coordinates of a polygon
 terminates

---
 pyslet/qtiv2/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/qtiv2/core.py b/pyslet/qtiv2/core.py
index 5756e27..c084d2b 100755
--- a/pyslet/qtiv2/core.py
+++ b/pyslet/qtiv2/core.py
@@ -212,6 +212,7 @@ def offset_shape(shape, coords, xoffset, yoffset):
         while 2 * i + 1 < len(coords):
             coords[2 * i].add(-xoffset)
             coords[2 * i + 1].add(-yoffset)
+            i = i + 1
     elif shape == Shape.rect:
         coords[0].add(-xoffset)
         coords[1].add(-yoffset)
-- 
2.43.0


From 821c806cce8effef6e2ed52607fef9a66bd66229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:35 +0000
Subject: [PATCH 335/362] fix: values are converted to their character string
 in python 3

---
 pyslet/qtiv2/variables.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 43ec284..d5f689f 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -26,7 +26,8 @@ from ..py2 import (
     range3,
     SortableMixin,
     uempty,
-    ul)
+    ul,
+    UnicodeMixin)
 from ..rfc2396 import URI
 from ..xml import structures as xml
 from ..xml import namespace as xmlns
@@ -243,7 +244,7 @@ class NullResult(core.QTIError):
         self.value = value
 
 
-class Value(MigratedClass, BoolMixin):
+class Value(MigratedClass, BoolMixin, UnicodeMixin):
 
     """Represents a single value in the processing model.
 
-- 
2.43.0


From fadcad850e2736bfef47bdaef99707d98720487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:35 +0000
Subject: [PATCH 336/362] fix: file values can be set

---
 pyslet/qtiv2/variables.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index d5f689f..f3ef38d 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -553,7 +553,7 @@ class FileValue(SingleValue):
 
     """Represents single value of type :py:class:`BaseType.file`."""
 
-    def __init__(self):
+    def __init__(self, value=None):
         super(FileValue, self).__init__()
         self.baseType = BaseType.file
         self.contentType = params.MediaType.from_str(
@@ -562,6 +562,8 @@ class FileValue(SingleValue):
         :py:class:`pyslet.http.params.MediaType` instance."""
         self.file_name = "data.bin"
         """The file name to use for the file."""
+        if value is not None:
+            self.set_value(value)
 
     def __unicode__(self):
         if self.value is None:
@@ -587,11 +589,11 @@ class FileValue(SingleValue):
         self.file_name = name
         if value is None:
             self.value = None
-        elif isinstance(value, file):
-            self.value = value
         elif isinstance(value, bytes):
-            self.value = BytesIO.BytesIO(value)
-        elif isinstance(value, str):
+            self.value = BytesIO(value)
+        elif hasattr(value, 'read'):
+            self.value = value
+        elif is_text(value):
             # Parse this value from the MIME stream.
             raise NotImplementedError(
                 "String deserialization of BaseType.file.")
-- 
2.43.0


From 679a743a5980e552c145f0b3e425a76e019e4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:47 +0000
Subject: [PATCH 337/362] fix: uri values can be converted to character strings

---
 pyslet/qtiv2/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index f3ef38d..9028799 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -25,6 +25,7 @@ from ..py2 import (
     long2,
     range3,
     SortableMixin,
+    to_text,
     uempty,
     ul,
     UnicodeMixin)
@@ -817,7 +818,7 @@ class URIValue(SingleValue):
         if self.value is None:
             return uempty
         else:
-            return force_text(self.value)
+            return to_text(self.value)
 
     def set_value(self, value):
         """Sets a uri value from a string or another URI instance."""
-- 
2.43.0


From ee133e98c9b102011eca7eee666b88f0813872f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:21 +0000
Subject: [PATCH 338/362] fix: values rounded to zero from both sides are equal

---
 pyslet/qtiv2/expressions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 493729f..8e728be 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1418,14 +1418,15 @@ class EqualRounded(NOperator):
             if figures is None:
                 return variables.BooleanValue()
             if self.roundingMode == RoundingMode.decimalPlaces:
+                # compare as numbers: values may be rounded to -0
                 return variables.BooleanValue(
-                    xsi.decimal_to_str(
+                    float(xsi.decimal_to_str(
                         v1v,
                         figures,
-                        False) == xsi.decimal_to_str(
-                        v2v,
-                        figures,
-                        False))
+                        False)) == float(xsi.decimal_to_str(
+                            v2v,
+                            figures,
+                            False)))
             else:
                 # for sig fig, we need to use the double form
                 return variables.BooleanValue(
-- 
2.43.0


From ae96ae1104544a32872f0d97e17f49197c3307a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:49 +0000
Subject: [PATCH 339/362] fix: contains refuses records

---
 pyslet/qtiv2/expressions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 8e728be..8de22d1 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -849,6 +849,8 @@ class Contains(NOperator):
         if base_type == variables.BaseType.duration:
             raise core.ProcessingError(
                 "Contains operator must not be used on duration values")
+        if cardinality == variables.Cardinality.record:
+            raise core.ProcessingError("Record values not allowed in contains")
         if cardinality is None or base_type is None:
             return variables.BooleanValue()
         if v1 and v2:
-- 
2.43.0


From ec1d4ca0d973b597e8a7bd0617877e462a44a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:19 +0000
Subject: [PATCH 340/362] fix: ordered responses can be submitted

---
 pyslet/qtiv2/variables.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 9028799..1181314 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2074,12 +2074,10 @@ class ItemSessionState(SessionState):
                 if len(rname) != 2:
                     continue
                 try:
-                    if (rd.baseType == BaseType.Identifier and
-                            core.ValidateIdentifier(rname[1])):
-                        if is_text(svalue):
-                            v.set_value(svalue)
-                        else:
-                            raise ValueError
+                    if not is_text(svalue):
+                        raise ValueError
+                    if (rd.baseType == BaseType.identifier and
+                            xmlns.is_valid_ncname(rname[1])):
                         rank = xsi.integer_from_str(svalue)
                         svalue = rname[1]
                     else:
-- 
2.43.0


From e4ddc10491ee9bac9bf1f8e2ab5caf40349d43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:19 +0000
Subject: [PATCH 341/362] fix: unknown variables in a form are reported with
 BadSessionParams

---
 pyslet/qtiv2/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 1181314..7d6975d 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2038,7 +2038,10 @@ class ItemSessionState(SessionState):
             if not rname:
                 continue
             # rname must be the name of a response variable
-            rd = self.get_declaration(rname[0])
+            try:
+                rd = self.get_declaration(rname[0])
+            except KeyError:
+                rd = None
             if rd is None or not isinstance(rd, ResponseDeclaration):
                 # unexpected item in bagging area!
                 raise BadSessionParams(
-- 
2.43.0


From b0f3c825e48c17734de43175af13d8a9164f2dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:30 +0000
Subject: [PATCH 342/362] fix: ordered responses are saved under their own name

---
 pyslet/qtiv2/variables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 7d6975d..163098c 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2101,13 +2101,12 @@ class ItemSessionState(SessionState):
             # we've gathered ordered parameters in a dictionary of dictionaries
             # keyed first on response identifier and then on rank.  For each
             # response we just sort them, so missing ranks are OK.
-            for response in ordered_params:
-                rparams = ordered_params[response]
+            for save_name in ordered_params:
+                rparams = ordered_params[save_name]
                 ranks = sorted(rparams.keys())
                 svalue = []
                 for r in ranks:
                     svalue.append(rparams[r])
-                save_name = response + ".SAVED"
                 v = self.map[save_name]
                 v.set_value(svalue)
 
-- 
2.43.0


From ad32699e1291f31a255b037919642a9e0fff3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:57 +0000
Subject: [PATCH 343/362] fix: rules that set undeclared variables fail with
 ProcessingError

---
 pyslet/qtiv2/processing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/processing.py b/pyslet/qtiv2/processing.py
index ee03bef..f32baac 100755
--- a/pyslet/qtiv2/processing.py
+++ b/pyslet/qtiv2/processing.py
@@ -239,7 +239,8 @@ class SetOutcomeValue(ResponseRule):
             raise core.ProcessingError(
                 "setOutcomeValue with missing expression")
         value = self.Expression.Evaluate(state)
-        if state.IsOutcome(self.identifier):
+        if (self.identifier in state and
+                state.IsOutcome(self.identifier)):
             state[self.identifier] = value
         else:
             raise core.ProcessingError(
@@ -530,6 +531,9 @@ class SetCorrectResponse(TemplateRule):
             raise core.ProcessingError(
                 "setCorrectResponse with missing expression")
         value = self.Expression.Evaluate(state)
+        if self.identifier not in state:
+            raise core.ProcessingError(
+                "%s has not been declared" % self.identifier)
         d = state.GetDeclaration(self.identifier)
         if isinstance(d, variables.ResponseDeclaration):
             state[self.identifier + ".CORRECT"] = value
@@ -576,6 +580,9 @@ class SetDefaultValue(TemplateRule):
             raise core.ProcessingError(
                 "setDefaultValue with missing expression")
         value = self.Expression.Evaluate(state)
+        if self.identifier not in state:
+            raise core.ProcessingError(
+                "%s has not been declared" % self.identifier)
         d = state.GetDeclaration(self.identifier)
         if (isinstance(d, variables.ResponseDeclaration) or
                 isinstance(d, variables.OutcomeDeclaration)):
-- 
2.43.0


From a905fc0f237d30b4065cab065c80ea1fa45a51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:19 +0000
Subject: [PATCH 344/362] fix: match tables use the first entry for a value

---
 pyslet/qtiv2/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 163098c..3090966 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -1645,7 +1645,8 @@ class MatchTable(LookupTable):
         self.map = {}
         for mte in self.MatchTableEntry:
             v = SingleValue.new_value(self.baseType, mte.targetValue)
-            self.map[mte.sourceValue] = v.value
+            # the first entry that matches is used
+            self.map.setdefault(mte.sourceValue, v.value)
 
     def lookup(self, value):
         """Maps an instance of :py:class:`Value` with integer base type to an
-- 
2.43.0


From c6b2e291bc2ddf3da1fae46c30f3f4f53f572b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:48 +0000
Subject: [PATCH 345/362] fix: items are written with their template processing
 and style sheets

---
 pyslet/qtiv2/items.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/qtiv2/items.py b/pyslet/qtiv2/items.py
index 3c6fd1f..3f04ea6 100755
--- a/pyslet/qtiv2/items.py
+++ b/pyslet/qtiv2/items.py
@@ -97,6 +97,10 @@ class AssessmentItem(core.QTIElement, core.DeclarationContainer):
             yield d
         for d in self.TemplateDeclaration:
             yield d
+        if self.TemplateProcessing:
+            yield self.TemplateProcessing
+        for child in self.StyleSheet:
+            yield child
         if self.ItemBody:
             yield self.ItemBody
         if self.ResponseProcessing:
-- 
2.43.0


From 96360473bf3aae52404d6d2eea8636568e7288ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:19 +0000
Subject: [PATCH 346/362] fix: shuffled sections could not be added to a test
 form

---
 pyslet/qtiv2/tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/tests.py b/pyslet/qtiv2/tests.py
index 165c623..50a646f 100755
--- a/pyslet/qtiv2/tests.py
+++ b/pyslet/qtiv2/tests.py
@@ -723,7 +723,7 @@ class TestForm(MigratedClass):
                     new_bucket.append(childID)
                     child = self.test.GetPart(childID)
                     if isinstance(child, AssessmentSection):
-                        new_bucket.extend(self.Select(childID, True))
+                        new_bucket.extend(self.Select(child, True))
                         new_bucket.append("-" + childID)
                 i = selection.index(None)
                 selection[i:i + 1] = new_bucket
-- 
2.43.0


From 3a647b0471435b59986bb4d19371947ecd4510ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:19 +0000
Subject: [PATCH 347/362] fix: a section in a shuffled invisible section was
 expanded twice in a test form

---
 pyslet/qtiv2/tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/tests.py b/pyslet/qtiv2/tests.py
index 50a646f..8acb352 100755
--- a/pyslet/qtiv2/tests.py
+++ b/pyslet/qtiv2/tests.py
@@ -722,7 +722,7 @@ class TestForm(MigratedClass):
                 for childID in b:
                     new_bucket.append(childID)
                     child = self.test.GetPart(childID)
-                    if isinstance(child, AssessmentSection):
+                    if isinstance(child, AssessmentSection) and expand_children:
                         new_bucket.extend(self.Select(child, True))
                         new_bucket.append("-" + childID)
                 i = selection.index(None)
-- 
2.43.0


From 729a0dbdf8c22ecef33e3c24a835e32a2276183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:19 +0000
Subject: [PATCH 348/362] fix: empty invisible sections could not be shuffled
 in a test form

---
 pyslet/qtiv2/tests.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/qtiv2/tests.py b/pyslet/qtiv2/tests.py
index 8acb352..a1053ca 100755
--- a/pyslet/qtiv2/tests.py
+++ b/pyslet/qtiv2/tests.py
@@ -692,6 +692,9 @@ class TestForm(MigratedClass):
                     new_selection = new_selection + self.Select(child, True)
                     new_selection.append("-" + child.identifier)
         selection = new_selection
+        # an empty invisible section has nothing to put in its slot
+        while len(shuffle_list) < selection.count(None):
+            shuffle_list.append(None)
         if shuffle_list:
             # Step 5: shuffle!
             random.shuffle(shuffle_list)
@@ -720,6 +723,8 @@ class TestForm(MigratedClass):
                 # We need to expand any sections that appear in the buckets
                 new_bucket = []
                 for childID in b:
+                    if childID is None:
+                        continue
                     new_bucket.append(childID)
                     child = self.test.GetPart(childID)
                     if isinstance(child, AssessmentSection) and expand_children:
-- 
2.43.0


From 080dc7b678a46bfa1e09627ca3ff5ba304d29fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:32 +0000
Subject: [PATCH 349/362] fix: test parts and sections with unsatisfied
 pre-conditions were not skipped

---
 pyslet/qtiv2/variables.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 3090966..cc3979a 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2375,7 +2375,11 @@ class TestSessionState(SessionState):
                         self.cQuestion = iq
                         break
                 else:
-                    # skip this item
+                    # skip this item, section or test part
+                    if not isinstance(part, tests.AssessmentItemRef):
+                        end_id = "-" + id
+                        while self.form[iq] != end_id:
+                            iq = iq + 1
                     iq = iq + 1
 
     def begin_session(self, key, html_parent=None):
-- 
2.43.0


From b93c64926fab0c0fdc346c79e4d186115678797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:32 +0000
Subject: [PATCH 350/362] fix: EXIT_SECTION stopped at the end of the next
 section instead of leaving the current one

---
 pyslet/qtiv2/variables.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index cc3979a..496aa51 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2293,6 +2293,8 @@ class TestSessionState(SessionState):
             return len(self.form)
         else:
             qpos = qpos + 1
+            # the number of parts opened since the branch
+            depth = 0
             while True:
                 if qpos >= len(self.form):
                     return qpos
@@ -2302,7 +2304,14 @@ class TestSessionState(SessionState):
                 qpos = qpos + 1
                 # handle the other special identifiers which move to the point
                 # just after the end of the part being exited
-                if id[0] == "-":
+                if id[0] != "-":
+                    if not isinstance(self.test.GetPart(id),
+                                      tests.AssessmentItemRef):
+                        depth = depth + 1
+                elif depth and target == "EXIT_SECTION":
+                    # the end of a section that follows
+                    depth = depth - 1
+                else:
                     if target == "EXIT_SECTION":
                         return qpos
                     elif (target == "EXIT_TESTPART" and
-- 
2.43.0


From d3d16f93606a1c4634f83d7cae882e7eeced9749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:00 +0000
Subject: [PATCH 351/362] fix: VirtualFilePath.splitext splits the last path
 component only

---
 pyslet/vfs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 1c69ae6..fd3d8f1 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -305,7 +305,13 @@ class VirtualFilePath(SortableMixin):
         if self.is_dirlike():
             return self, self.path_str('')
         else:
-            pos = self.path.rfind(self.ext)
+            # the extension belongs to the last path component only and
+            # leading dots are part of the name
+            start = self.splitdrive()[0].path
+            start = max(len(start), self.path.rfind(self.sep) + len(self.sep))
+            while self.path[start:start + len(self.ext)] == self.ext:
+                start += len(self.ext)
+            pos = self.path.rfind(self.ext, start)
             if pos >= 0:
                 return self.__class__(self.path[:pos]), \
                     to_text(self.path[pos:])
-- 
2.43.0


From 03283c4f9f74aad876896801fb4e8ff00a5bf3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:00 +0000
Subject: [PATCH 352/362] fix: VirtualFilePath.normpath collapses repeated
 leading separators

---
 pyslet/vfs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index fd3d8f1..4b81128 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -381,13 +381,14 @@ class VirtualFilePath(SortableMixin):
             return self.__class__(self.curdir)
         drive, tail = self.splitdrive()
         components = tail.path.split(self.sep)
+        unc = self.supports_unc and tail.path.startswith(self.sep + self.sep)
         i = 0
         while i < len(components):
             component = components[i]
             if not component:
                 # empty path component removed except start and
-                # special case of all empty components
-                if i == 1 and not components[0]:
+                # special case of UNC paths
+                if i == 1 and not components[0] and unc:
                     break
                 elif i:
                     del components[i]
-- 
2.43.0


From 35347fe44da7cd11f498c0d26aef77a6307568fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:00 +0000
Subject: [PATCH 353/362] fix: MemFilePath.open creates files only for writing,
 in directories that exist

---
 pyslet/vfs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 4b81128..646e287 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -819,6 +819,14 @@ class MemFilePath(VirtualFilePath):
         with self._lock:
             item = self._fsdir.get(cpath, None)
             if item is None:
+                head, tail = cpath.split()
+                if head not in self._fsdir and head.is_root():
+                    # auto create the root if missing
+                    self._fsdir[head] = MemDirectory(head)
+                if mode[0] == 'r' or not isinstance(
+                        self._fsdir.get(head, None), MemDirectory):
+                    raise IOError(errno.ENOENT, os.strerror(errno.ENOENT),
+                                  to_text(self))
                 item = MemFile(cpath)
                 self._fsdir[cpath] = item
             if isinstance(item, MemFile):
-- 
2.43.0


From 70d09cbc7465704493363356a11feaa6df4a22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:00 +0000
Subject: [PATCH 354/362] fix: MemFilePath.mkdir refuses to create a directory
 in a file

---
 pyslet/vfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 646e287..8cfbb83 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -852,6 +852,8 @@ class MemFilePath(VirtualFilePath):
                         return
                 else:
                     raise OSError("%s does not exist" % to_text(head))
+            elif not isinstance(self._fsdir[head], MemDirectory):
+                raise OSError("%s is not a directory" % to_text(head))
             if cpath in self._fsdir:
                 raise OSError("%s already exists" % to_text(cpath))
             self._fsdir[cpath] = MemDirectory(cpath)
-- 
2.43.0


From 503baf03d6122c7616b29e53cd39a9fcbdec0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:00 +0000
Subject: [PATCH 355/362] fix: MemFilePath.rmtree removes the directory itself

---
 pyslet/vfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 8cfbb83..71937e5 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -937,6 +937,8 @@ class MemFilePath(VirtualFilePath):
             if not open_files:
                 for dpath in dirs:
                     del self._fsdir[dpath]
+                if not cpath.is_root():
+                    del self._fsdir[cpath]
 
 
 class OSFilePath(VirtualFilePath):
-- 
2.43.0


From b2d3d28ebbda280acfcfd43551d449c7d05dbfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:00 +0000
Subject: [PATCH 356/362] fix: MemFilePath.mkdtemp makes each attempt in the
 temporary directory

---
 pyslet/vfs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 71937e5..be53615 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -775,12 +775,12 @@ class MemFilePath(VirtualFilePath):
                 cls.path_str(suffix)
             if cls.sep in name:
                 raise ValueError
-            tmp = tmp.join(name)
+            path = tmp.join(name)
             # now hold the file system lock
             with cls._lock:
-                if not tmp.exists():
-                    tmp.makedirs()
-                    return tmp
+                if not path.exists():
+                    path.makedirs()
+                    return path
         logging.error("MemFilePath.mkdtemp failed in 256 attempts")
         raise RuntimeError
 
-- 
2.43.0


From 50e784c7b7087f906cf463b8b40a0745ec9f21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:43 +0000
Subject: [PATCH 357/362] fix: MemFilePath.chdir requires an existing directory

---
 pyslet/vfs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index be53615..dceed72 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -744,10 +744,10 @@ class MemFilePath(VirtualFilePath):
 
     def chdir(self):
         """Sets the current working directory"""
-        if self.isabs():
-            self.__class__._wd = self
-        else:
-            self.__class__._wd = self.abspath()
+        cpath = self.abspath()
+        if not cpath.isdir() and not cpath.is_root():
+            raise OSError("%s is not a directory" % to_text(self))
+        self.__class__._wd = cpath
 
     @classmethod
     def mkdtemp(cls, suffix="", prefix=""):
-- 
2.43.0


From d01e258cdf0213f7ed1e8d0cd421c59719d2e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:02 +0000
Subject: [PATCH 358/362] fix: MemFilePath.remove raised KeyError when another
 thread removed the file first

---
 pyslet/vfs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index dceed72..f6e5053 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -885,7 +885,10 @@ class MemFilePath(VirtualFilePath):
         if self.isfile():
             cpath = self.realpath()
             with self._lock:
-                item = self._fsdir[cpath]
+                item = self._fsdir.get(cpath, None)
+                if item is None:
+                    # removed in another thread
+                    raise OSError("%s no such file" % self)
                 if isinstance(item, MemFile):
                     if item.is_open():
                         raise IOError(
-- 
2.43.0


From 7086b5e021b15e03c66b0c43d4d1fc74ec57cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:36 +0000
Subject: [PATCH 359/362] fix: the last declaration of an entity was used
 instead of the first

---
 pyslet/xml/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index c6b39eb..9816573 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3911,7 +3911,13 @@ class XMLParser(PEP8Compatibility):
             e.location = self.resolve_external_id(e.definition, xentity)
         if self.dtd:
             e.entity = dentity
-            self.dtd.declare_entity(e)
+            # the first declaration encountered is binding
+            if isinstance(e, xml.XMLParameterEntity):
+                declared = self.dtd.get_parameter_entity(e.name)
+            else:
+                declared = self.dtd.get_entity(e.name)
+            if declared is None:
+                self.dtd.declare_entity(e)
         return e
 
     def parse_ge_decl(self, got_literal=False):
-- 
2.43.0


From 59bd493e2582a88aebf46bb2b2c289c88d88ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:36 +0000
Subject: [PATCH 360/362] fix: parameter entity references were recognised in
 processing instructions

---
 pyslet/xml/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 9816573..45d21c5 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1702,7 +1702,12 @@ class XMLParser(PEP8Compatibility):
             self.parse_required_literal('<?', production)
         dentity = self.entity
         target = self.parse_pi_target()
-        if self.parse_s():
+        # parameter entities are not recognised in instructions
+        save_mode = self.refMode
+        self.refMode = XMLParser.RefModeNone
+        got_s = self.parse_s()
+        self.refMode = save_mode
+        if got_s:
             while self.the_char is not None:
                 self.check_entity(dentity, production)
                 if self.parse_literal('?>'):
-- 
2.43.0


From db297ce418742490bab72d8a3ca630c2e3f5379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:36 +0000
Subject: [PATCH 361/362] fix: ignored sections could hold only one section at
 each level

---
 pyslet/xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 45d21c5..b641094 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3602,7 +3602,7 @@ class XMLParser(PEP8Compatibility):
         Parses the contents of an ignored section.  The method returns
         no data."""
         self.parse_ignore()
-        if self.parse_literal('<!['):
+        while self.parse_literal('<!['):
             self.parse_ignore_sect_contents()
             self.parse_required_literal(xml.CDATA_END,
                                         "[64] ignoreSectContents")
-- 
2.43.0


From f24d4714d4a131d488f74688165474d8d07ec5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:56 +0000
Subject: [PATCH 362/362] fix: undo the check in MemFilePath.chdir, existing
 uses rely on directories that don't exist

---
 pyslet/vfs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index f6e5053..c3ab194 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -744,10 +744,10 @@ class MemFilePath(VirtualFilePath):
 
     def chdir(self):
         """Sets the current working directory"""
-        cpath = self.abspath()
-        if not cpath.isdir() and not cpath.is_root():
-            raise OSError("%s is not a directory" % to_text(self))
-        self.__class__._wd = cpath
+        if self.isabs():
+            self.__class__._wd = self
+        else:
+            self.__class__._wd = self.abspath()
 
     @classmethod
     def mkdtemp(cls, suffix="", prefix=""):
-- 
2.43.0

