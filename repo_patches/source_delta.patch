From a6e64bd2e1b5bff785bb246fc083f692767f72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:33 +0000
Subject: [PATCH 01/30] fix: compare integer keys without overflow when sorting

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a43c4a9..a56bac3 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -551,7 +551,7 @@ static int kvtree_cmp_fn_int_asc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_a - int_b);
+  return (int_a > int_b) - (int_a < int_b);
 }
 
 /** sort integers in descending order */
@@ -561,7 +561,7 @@ static int kvtree_cmp_fn_int_desc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_b - int_a);
+  return (int_b > int_a) - (int_b < int_a);
 }
 
 /** sort the hash assuming the keys are ints */
-- 
2.43.0


From 547001b5aacc2c81f01ce66a5876e1a90dfeb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 02/30] fix: refuse files whose size field or packed data is
 invalid

kvtree_read_fd trusted the size field and the packed data of files without
(or with a crafted) checksum: it read beyond the buffer and a huge size
field terminated the calling process.
---
 src/kvtree.c | 64 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a56bac3..e7b8b2f 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1325,6 +1325,38 @@ ssize_t kvtree_read_persist(const void* buf, size_t bufsize, kvtree* hash)
 }
 #endif
 
+/** checks that the buffer holds a complete packed hash within its first
+ * bufsize bytes, returns the number of bytes it occupies or -1 if not */
+static ssize_t kvtree_packed_size(const char* buf, size_t bufsize)
+{
+  size_t size = 0;
+  uint32_t count;
+  if (bufsize < sizeof(uint32_t) ||
+      kvtree_unpack_uint32_t((void*) buf, bufsize, &size, &count) != KVTREE_SUCCESS)
+  {
+    return -1;
+  }
+
+  uint32_t i;
+  for (i = 0; i < count; i++) {
+    /* the key string must end within the buffer */
+    const char* end = memchr(buf + size, '\0', bufsize - size);
+    if (end == NULL) {
+      return -1;
+    }
+    size = (size_t) (end - buf) + 1;
+
+    /* followed by a complete hash */
+    ssize_t rc = kvtree_packed_size(buf + size, bufsize - size);
+    if (rc < 0) {
+      return -1;
+    }
+    size += (size_t) rc;
+  }
+
+  return (ssize_t) size;
+}
+
 /** executes logic of kvtree_read using an opened file descriptor */
 ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
 {
@@ -1388,16 +1420,25 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   uint32_t flags;
   kvtree_unpack_uint32_t(header, sizeof(header), &size, &flags);
 
-  /* check that the filesize is valid (positive) */
-  if (filesize < KVTREE_FILE_HASH_HEADER_SIZE) {
+  /* check that the filesize is valid (leaves room for the crc if there is one) */
+  int crc_set = flags & KVTREE_FILE_FLAGS_CRC32;
+  uint64_t minsize = KVTREE_FILE_HASH_HEADER_SIZE + (crc_set ? sizeof(uint32_t) : 0);
+  if (filesize < minsize || filesize > SSIZE_MAX) {
     kvtree_err("Invalid file size stored in %s @ %s:%d",
       file, __FILE__, __LINE__
     );
     return -1;
   }
 
-  /* allocate a buffer to read the hash and crc */
-  char* buf = (char*) KVTREE_MALLOC(filesize);
+  /* allocate a buffer to read the hash and crc, the size comes from the
+   * file and may be anything, so failing to allocate it is not fatal */
+  char* buf = (char*) malloc(filesize);
+  if (buf == NULL) {
+    kvtree_err("Failed to allocate %llu bytes to read %s @ %s:%d",
+      (unsigned long long) filesize, file, __FILE__, __LINE__
+    );
+    return -1;
+  }
 
   /* copy the header into the buffer */
   memcpy(buf, header, size);
@@ -1421,10 +1462,10 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   }
 
   /* check the crc value if it's set */
-  int crc_set = flags & KVTREE_FILE_FLAGS_CRC32;
+  size_t data_end = filesize;
   if (crc_set) {
-    /* TODO: we should check that the remainder above is at least 4
-     * (for the crc) */
+    /* the data ends where the crc starts */
+    data_end -= sizeof(uint32_t);
 
     /* compute the crc value of the data */
     uLong crc = crc32(0L, Z_NULL, 0);
@@ -1445,6 +1486,15 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
+  /* check that the data is a complete hash before we unpack it */
+  if (kvtree_packed_size(buf + size, data_end - size) < 0) {
+    kvtree_err("Invalid data found in %s @ %s:%d",
+      file, __FILE__, __LINE__
+    );
+    kvtree_free(&buf);
+    return -1;
+  }
+
   /* create a temporary hash to read data into, unpack, and merge */
   kvtree* tmp_hash = kvtree_new();
   kvtree_unpack(buf + size, tmp_hash);
-- 
2.43.0


From af7f3254365b4dbc9bedad88c37024717f27b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 03/30] fix: return an invalid descriptor when the file lock is
 not acquired

kvtree_open_with_lock returned KVTREE_FAILURE, which is 1 and so looks like
a valid descriptor: the callers went on with stdout.
---
 src/kvtree_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 81c6def..954b23e 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -222,7 +222,7 @@ int kvtree_open_with_lock(const char* file, int flags, mode_t mode, int write)
   int ret = kvtree_file_lock_read_write(file, fd, write);
   if (ret != KVTREE_SUCCESS) {
     close(fd);
-    return ret;
+    return -1;
   }
 
   /* return the opened file descriptor */
-- 
2.43.0


From 2b72f0cbd58375d0c655ec40f7a8a51753febe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 04/30] fix: close the descriptor when releasing the file lock
 fails

---
 src/kvtree_io.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 954b23e..34f1c9f 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -234,12 +234,13 @@ int kvtree_close_with_unlock(const char* file, int fd)
 {
   /* release the file lock */
   int ret = kvtree_file_unlock(file, fd);
+
+  /* close the file, even if we failed to release the lock */
+  int rc = kvtree_close(file, fd);
   if (ret != KVTREE_SUCCESS) {
     return ret;
   }
-
-  /* close the file */
-  return kvtree_close(file, fd);
+  return rc;
 }
 
 /* seek file descriptor to specified position */
-- 
2.43.0


From 52d3d6f060218e968340f132956be0eb3234374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 05/30] fix: report a failed write or close from
 kvtree_write_with_lock

---
 src/kvtree.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index e7b8b2f..02d93bf 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1621,13 +1621,19 @@ int kvtree_write_with_lock(const char* file, kvtree* hash)
 {
   int fd = kvtree_read_write_with_lock(file, hash, 1);
   if (fd >= 0) {
+    int rc = KVTREE_SUCCESS;
+
     /* write the file into the hash */
-    kvtree_write_fd(file, fd, hash);
+    if (kvtree_write_fd(file, fd, hash) < 0) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, fd);
+    if (kvtree_close_with_unlock(file, fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
-    return KVTREE_SUCCESS;
+    return rc;
   } else {
     kvtree_err("Failed to open file with lock %s @ %s:%d",
       file, __FILE__, __LINE__
-- 
2.43.0


From 0bb2e563f2db8d688ce6a26a3a07128a70606335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 06/30] fix: report a failed read from kvtree_lock_open_read

It returned success with an empty hash, so that the following
kvtree_write_close_unlock replaced the data in the file.
---
 src/kvtree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 02d93bf..f8f6219 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1685,7 +1685,12 @@ int kvtree_lock_open_read(const char* file, int* fd, kvtree* hash)
   *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);
   if (*fd >= 0) {
     /* read the file into the hash */
-    kvtree_read_fd(file, *fd, hash);
+    if (kvtree_read_fd(file, *fd, hash) < 0) {
+      kvtree_err("Couldn't read file %s @ %s:%d", file, __FILE__, __LINE__);
+      kvtree_close_with_unlock(file, *fd);
+      *fd = -1;
+      return KVTREE_FAILURE;
+    }
     return KVTREE_SUCCESS;
   }
 
-- 
2.43.0


From e0576c6cd2b701e705c380728485f89143916509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 07/30] fix: report a failed write, truncate or close from
 kvtree_write_close_unlock

---
 src/kvtree.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index f8f6219..c2f6251 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1733,12 +1733,14 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
     return KVTREE_FAILURE;
   }
 
+  int rc = KVTREE_SUCCESS;
   if (*fd >= 0) {
-    /* wind the file pointer back to the start of the file */
-    lseek(*fd, 0, SEEK_SET);
-
-    /* write the updated hash back to the file */
-    ssize_t nwrite = kvtree_write_fd(file, *fd, hash);
+    /* wind the file pointer back to the start of the file,
+     * and write the updated hash back to the file */
+    ssize_t nwrite = -1;
+    if (kvtree_lseek(file, *fd, 0, SEEK_SET) == KVTREE_SUCCESS) {
+      nwrite = kvtree_write_fd(file, *fd, hash);
+    }
 
     /* truncate file to new size */
     if (nwrite >= 0) {
@@ -1746,17 +1748,22 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
         kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
           errno, strerror(errno), __FILE__, __LINE__
         );
+        rc = KVTREE_FAILURE;
       }
+    } else {
+      rc = KVTREE_FAILURE;
     }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, *fd);
+    if (kvtree_close_with_unlock(file, *fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* mark the file descriptor as closed */
     *fd = -1;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /** write kvtree as gather/scatter file, input kvtree must be in form:
-- 
2.43.0


From b0a7b0af8ef002423aaedb5860ae16e7c66da4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 08/30] fix: refuse files with bytes left over behind the
 packed data

A damaged flags field (crc bit cleared) disabled the checksum, so that the
damage went undetected.
---
 src/kvtree.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index c2f6251..45f99df 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1486,8 +1486,10 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
-  /* check that the data is a complete hash before we unpack it */
-  if (kvtree_packed_size(buf + size, data_end - size) < 0) {
+  /* check that the data is exactly one complete hash before we unpack it,
+   * this also catches a file whose crc flag was lost */
+  ssize_t data_size = kvtree_packed_size(buf + size, data_end - size);
+  if (data_size < 0 || (size_t) data_size != data_end - size) {
     kvtree_err("Invalid data found in %s @ %s:%d",
       file, __FILE__, __LINE__
     );
-- 
2.43.0


From 95d07c750c5785d83b7bfb6c1cbf14d1a5c302c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 09/30] fix: receive nothing from MPI_PROC_NULL instead of
 using an unset size

---
 src/kvtree_mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index fc9ce37..dec57fb 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -65,8 +65,8 @@ int kvtree_recv(kvtree* hash, int rank, MPI_Comm comm)
   /* clear the hash */
   kvtree_unset_all(hash);
 
-  /* get the size of the incoming hash */
-  int size;
+  /* get the size of the incoming hash, nothing arrives from MPI_PROC_NULL */
+  int size = 0;
   MPI_Status status;
   MPI_Recv(&size, 1, MPI_INT, rank, 0, comm, &status);
 
-- 
2.43.0


From 5289db0e6ce85d637351db1a442c4a2349e0e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 10/30] fix: report a failed close from kvtree_write_gather

---
 src/kvtree_mpi_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 71cd502..2c26e34 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -246,7 +246,9 @@ static unsigned long kvtree_write_gather_map(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
@@ -356,7 +358,9 @@ int kvtree_write_gather(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err( "Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
-- 
2.43.0


From 40bc35b073999c6a6848872467b61589ff871012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 11/30] fix: refuse map files of another number of ranks in
 kvtree_read_scatter

---
 src/kvtree_mpi_io.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 2c26e34..7d63ab6 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -412,6 +412,17 @@ static int kvtree_read_scatter_map(
         rc = KVTREE_FAILURE;
       }
 
+      /* check that the number of ranks match */
+      int ranks_world, ranks = 0;
+      MPI_Comm_size(comm, &ranks_world);
+      kvtree_util_get_int(hash, "RANKS", &ranks);
+      if (ranks != ranks_world) {
+        kvtree_err("Invalid number of ranks in %s, got %d expected %d @ %s:%d",
+          file, ranks, ranks_world, __FILE__, __LINE__
+        );
+        rc = KVTREE_FAILURE;
+      }
+
       /* close the file */
       kvtree_close(file, fd);
     } else {
-- 
2.43.0


From 00c571489de8c77d7bcbae9572cd11dcd1bbd2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 12/30] fix: report a failed seek from kvtree_read_scatter

---
 src/kvtree_mpi_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 7d63ab6..232c23c 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -403,7 +403,9 @@ static int kvtree_read_scatter_map(
     int fd = kvtree_open(file, O_RDONLY);
     if (fd >= 0) {
       /* read our segment from the file */
-      kvtree_lseek(file, fd, offset, SEEK_SET);
+      if (kvtree_lseek(file, fd, offset, SEEK_SET) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
       ssize_t read_rc = kvtree_read_fd(file, fd, hash);
       if (read_rc < 0) {
         kvtree_err("Failed to read from %s @ %s:%d",
@@ -568,7 +570,9 @@ int kvtree_read_scatter(
       kvtree* save = kvtree_new();
 
       /* read hash from file */
-      kvtree_lseek(file, fd, offset, SEEK_SET);
+      if (kvtree_lseek(file, fd, offset, SEEK_SET) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
       ssize_t readsize = kvtree_read_fd(file, fd, save);
       if (readsize < 0) {
         kvtree_err("Failed to read file %s @ %s:%d",
-- 
2.43.0


From 7dcfd2b137aece1dd2262870a2dc3ce80ebc75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 13/30] fix: compare part file names literally in
 kvtree_read_scatter_single

---
 src/kvtree.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 45f99df..5c1a8d2 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -21,7 +21,6 @@
 #include <libgen.h>
 #include <dirent.h>
 #include <limits.h>
-#include <regex.h>
 
 
 /* need at least version 8.5 of queue.h from Berkeley */
@@ -1867,6 +1866,18 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
   return rc;
 }
 
+/* return 1 if name is the name of a level 0 file of the given prefix,
+ * i.e., <prefix_file>.0.<number>, and 0 otherwise */
+static int kvtree_is_subfile(const char* name, const char* prefix_file)
+{
+  size_t len = strlen(prefix_file);
+  if (strncmp(name, prefix_file, len) != 0 || strncmp(name + len, ".0.", 3) != 0) {
+    return 0;
+  }
+  const char* id = name + len + 3;
+  return (*id != '\0' && strspn(id, "0123456789") == strlen(id));
+}
+
 /*
  * Given a prefix passed to a kvtree_write_gather() (like "/tmp/rank2file",
  * read all the rank data from all the scattered subfiles, and construct a
@@ -1919,18 +1930,6 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
   char* prefix_file_copy = strdup(prefix);
   char* prefix_file = basename(prefix_file_copy);
 
-  /* Create our regex to match our prefix files */
-  char pattern[PATH_MAX];
-  snprintf(pattern, sizeof(pattern), "^%s\\.0\\.[0-9]+$", prefix_file);
-  pattern[sizeof(pattern) - 1] = '\0';
-
-  regex_t regex;
-  rc = regcomp(&regex, pattern, REG_EXTENDED);
-  if (rc) {
-    rc = KVTREE_FAILURE;
-    goto end;
-  }
-
   DIR* d = opendir(prefix_dir);
   if (!d) {
     rc = KVTREE_FAILURE;
@@ -1946,8 +1945,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
      * like "rank2file.".
      */
     /* Is this one of our subfiles?  It should have .0.x in the extension */
-    rc = regexec(&regex, dir->d_name, 0, NULL, 0);
-    if (rc == 0) {  /* Did we get both numbers in the extension? */
+    if (kvtree_is_subfile(dir->d_name, prefix_file)) {  /* Did we get both numbers in the extension? */
       /* subfile matches */
 
       /* Construct the full path to the subfile kvtree */
-- 
2.43.0


From 59eb2d5583a81313152c834a6a46cbb2eeee6284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 14/30] fix: ignore part files of an earlier set in
 kvtree_read_scatter_single

---
 src/kvtree.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 5c1a8d2..0aa5430 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1919,6 +1919,11 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
     kvtree_err("Couldn't get RANKS for %s\n", prefix);
     return rc;
   }
+
+  /* a root at level 1 lists the subfiles that belong to the set */
+  int root_level = 0;
+  kvtree_util_get_int(final_tree, "LEVEL", &root_level);
+  kvtree* subfiles = kvtree_extract(final_tree, "RANK");
   kvtree_delete(&final_tree);
 
   /* Start construction of the final tree that we will return */
@@ -1948,6 +1953,11 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
     if (kvtree_is_subfile(dir->d_name, prefix_file)) {  /* Did we get both numbers in the extension? */
       /* subfile matches */
 
+      /* skip files that were left behind by an earlier set */
+      if (root_level == 1 && kvtree_get(subfiles, strrchr(dir->d_name, '.') + 1) == NULL) {
+        continue;
+      }
+
       /* Construct the full path to the subfile kvtree */
       char tmp[PATH_MAX];
       memset(tmp, 0, sizeof(tmp));
@@ -1981,6 +1991,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 end:
   kvtree_free(&prefix_dir_copy);
   kvtree_free(&prefix_file_copy);
+  kvtree_delete(&subfiles);
   kvtree_delete(&final_tree);
   if (rc != KVTREE_SUCCESS || actual_ranks != expected_ranks) {
     return KVTREE_FAILURE;
-- 
2.43.0


From 25301d94d4819e4208aa78d8d0d017cc541d204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 15/30] fix: add nothing to the caller's tree when
 kvtree_read_scatter_single fails

---
 src/kvtree.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 0aa5430..977afb3 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1985,19 +1985,20 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
     }
   }
   closedir(d);
-  kvtree_merge(data, final_tree);
-  rc = KVTREE_SUCCESS;
+
+  /* return data only if we found every rank */
+  rc = KVTREE_FAILURE;
+  if (actual_ranks == expected_ranks) {
+    kvtree_merge(data, final_tree);
+    rc = KVTREE_SUCCESS;
+  }
 
 end:
   kvtree_free(&prefix_dir_copy);
   kvtree_free(&prefix_file_copy);
   kvtree_delete(&subfiles);
   kvtree_delete(&final_tree);
-  if (rc != KVTREE_SUCCESS || actual_ranks != expected_ranks) {
-    return KVTREE_FAILURE;
-  }
-
-  return KVTREE_SUCCESS;
+  return rc;
 }
 ///@}
 
-- 
2.43.0


From 0c9ece701f109815b8a0dc28297a13d08a38f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 16/30] fix: do not leak or add an empty key in kvtree_set_kv
 given a NULL key or value

---
 src/kvtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 977afb3..27cdc92 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -699,7 +699,7 @@ int kvtree_list_int(const kvtree* hash, int* n, int** v)
 /** shortcut to create a key and subkey in a hash with one call */
 kvtree* kvtree_set_kv(kvtree* hash, const char* key, const char* val)
 {
-  if (hash == NULL) {
+  if (hash == NULL || key == NULL || val == NULL) {
     return NULL;
   }
 
-- 
2.43.0


From 6f809f8efa59ed0ca53268b798a6a671362f76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 17/30] fix: free the rank data of each subfile in
 kvtree_read_scatter_single

---
 src/kvtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 27cdc92..ceafdf4 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1978,6 +1978,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
             if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
               actual_ranks += kvtree_size(subfile_rank_tree);
             }
+            kvtree_delete(&subfile_rank_tree);
           }
         }
       }
-- 
2.43.0


From 4392180fce99f2445112c880085cfbd1a90e6603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 18/30] fix: free the next file name when kvtree_read_scatter
 finds a read error

---
 src/kvtree_mpi_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 232c23c..445fddf 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -501,6 +501,7 @@ static int kvtree_read_scatter_map(
   /* check for read errors */
   if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
     rc = KVTREE_FAILURE;
+    kvtree_free(&newfile);
     goto cleanup;
   }
 
-- 
2.43.0


From 35c899628cfec49882182bd316ed830638ad2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 19/30] fix: do not leak the message in kvtree_exchange_sendq
 given a NULL queue

---
 src/kvtree_mpi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index dec57fb..036bf9d 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -221,6 +221,11 @@ int kvtree_bcast(kvtree* hash, int root, MPI_Comm comm)
 /* insert message destined for rank into send kvtree */
 int kvtree_exchange_sendq(kvtree* send_hash, int rank, const kvtree* msg)
 {
+  /* nothing to do if there is no queue */
+  if (send_hash == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /* see whether we've already got data for this rank,
    * if so, merge it in, otherwise create a copy and add it */
   kvtree* hash = kvtree_getf(send_hash, "%d", rank);
-- 
2.43.0


From 5a4b3080797b6b7fcedf347a857bc93e81d3b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 20/30] fix: treat a NULL key as absent in kvtree_setf and
 kvtree_getf

---
 src/kvtree.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index ceafdf4..2d37c9d 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -348,7 +348,13 @@ kvtree* kvtree_setf(kvtree* hash, kvtree* hash_value, const char* format, ...)
     char key[KVTREE_MAX_LINE];
     int size = 0;
     if (strcmp(token, "%s") == 0) {
-      size = snprintf(key, sizeof(key), token, va_arg(args, char*));
+      const char* str = va_arg(args, char*);
+      if (str == NULL) {
+        /* there is no such key */
+        h = NULL;
+        break;
+      }
+      size = snprintf(key, sizeof(key), token, str);
     } else if (strcmp(token, "%d")  == 0) {
       size = snprintf(key, sizeof(key), token, va_arg(args, int));
     } else if (strcmp(token, "%lld") == 0) {
@@ -463,7 +469,13 @@ kvtree* kvtree_getf(const kvtree* hash, const char* format, ...)
     char key[KVTREE_MAX_LINE];
     int size = 0;
     if (strcmp(token, "%s") == 0) {
-      size = snprintf(key, sizeof(key), token, va_arg(args, char*));
+      const char* str = va_arg(args, char*);
+      if (str == NULL) {
+        /* there is no such key */
+        h = NULL;
+        break;
+      }
+      size = snprintf(key, sizeof(key), token, str);
     } else if (strcmp(token, "%d")  == 0) {
       size = snprintf(key, sizeof(key), token, va_arg(args, int));
     } else if (strcmp(token, "%lld") == 0) {
-- 
2.43.0


From 6eff5651072d37e82fcae2513ef81fdcbc52f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 21/30] fix: accept a NULL element in
 kvtree_elem_extract_by_addr

---
 src/kvtree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 2d37c9d..5e57e33 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -919,6 +919,10 @@ kvtree_elem* kvtree_elem_extract_int(kvtree* hash, int key)
  * element */
 kvtree_elem* kvtree_elem_extract_by_addr(kvtree* hash, kvtree_elem* elem)
 {
+  if (elem == NULL) {
+    return NULL;
+  }
+
   /* TODO: check that elem is really in hash */
   LIST_REMOVE(elem, pointers);
   return elem;
-- 
2.43.0


From 83e5bc5c6388db5eb8c7d080947aa10389d07d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 22/30] fix: return 0 from kvtree_elem_key_int if the key is
 not defined

---
 src/kvtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 5e57e33..05add0b 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -839,7 +839,7 @@ char* kvtree_elem_key(const kvtree_elem* elem)
  * 0 if key is not defined) */
 int kvtree_elem_key_int(const kvtree_elem* elem)
 {
-  if (elem == NULL) {
+  if (elem == NULL || elem->key == NULL) {
     return 0;
   }
   int i = atoi(elem->key);
-- 
2.43.0


From 87c968f4b315df0998934862f2311cce0ac793dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 23/30] fix: print trees nested deeper than the indentation
 buffer

---
 src/kvtree.c | 54 +++++++++++++---------------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 05add0b..f4c35d7 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2026,23 +2026,16 @@ end:
 /** prints specified hash element to stdout for debugging */
 static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (mode == KVTREE_PRINT_TREE) {
     if (elem != NULL) {
       if (elem->key != NULL) {
-        printf("%s%s\n", tmp, elem->key);
+        printf("%*s%s\n", indent, "", elem->key);
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
       }
       kvtree_print_mode(elem->hash, indent, mode);
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2057,25 +2050,25 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
           if (elem2->hash == NULL || kvtree_size(elem2->hash) == 0) {
             /* my hash has one value, and the hash for that one value
              * is empty, so print this as a key/value pair */
-            printf("%s%s = %s\n", tmp, elem->key, elem2->key);
+            printf("%*s%s = %s\n", indent, "", elem->key, elem2->key);
           } else {
             /* my hash has one value, but the hash for that one value is
              * non-empty so we need to recurse into hash */
-            printf("%s%s\n", tmp, elem->key);
+            printf("%*s%s\n", indent, "", elem->key);
             kvtree_print_mode(elem->hash, indent, mode);
           }
         } else {
           /* hash for current element has 0 or more than one items,
            * so we need to recurse into hash */
-          printf("%s%s\n", tmp, elem->key);
+          printf("%*s%s\n", indent, "", elem->key);
           kvtree_print_mode(elem->hash, indent, mode);
         }
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
         kvtree_print_mode(elem->hash, indent, mode);
       }
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2087,20 +2080,13 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 /** prints specified hash to stdout for debugging */
 int kvtree_print_mode(const kvtree* hash, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_print(elem, indent + 2, mode);
     }
   } else {
-    printf("%sNULL LIST\n", tmp);
+    printf("%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2114,22 +2100,15 @@ int kvtree_print(const kvtree* hash, int indent)
 /** logs specified hash element to stdout for debugging */
 static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (elem != NULL) {
     if (elem->key != NULL) {
-      kvtree_dbg(log_level, "%s%s\n", tmp, elem->key);
+      kvtree_dbg(log_level, "%*s%s\n", indent, "", elem->key);
     } else {
-      kvtree_dbg(log_level, "%sNULL KEY\n", tmp);
+      kvtree_dbg(log_level, "%*sNULL KEY\n", indent, "");
     }
     kvtree_log(elem->hash, log_level, indent);
   } else {
-    kvtree_dbg(log_level, "%sNULL ELEMENT\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL ELEMENT\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2137,20 +2116,13 @@ static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 /** prints specified hash to stdout for debugging */
 int kvtree_log(const kvtree* hash, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_log(elem, log_level, indent+2);
     }
   } else {
-    kvtree_dbg(log_level, "%sNULL LIST\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
-- 
2.43.0


From 5ad979818746fff5153563b5a039745e0df3e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 24/30] fix: fail without touching files if a gather or scatter
 prefix is NULL

---
 src/kvtree.c        | 11 +++++++++++
 src/kvtree_mpi_io.c | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index f4c35d7..eed4994 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1791,6 +1791,12 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
 int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
 {
   int rc = KVTREE_SUCCESS;
+
+  /* check that we have a file name prefix */
+  if (prefix == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /* record up to 8K entries per file */
   long entries_per_file = 8192;
 
@@ -1917,6 +1923,11 @@ static int kvtree_is_subfile(const char* name, const char* prefix_file)
  */
 int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 {
+  /* check that we have a file name prefix */
+  if (prefix == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /*
    * Read in high level kvtree.
    */
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 445fddf..6d76d90 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -278,6 +278,11 @@ int kvtree_write_gather(
 {
   int rc = KVTREE_SUCCESS;
 
+  /* check that we have a file name prefix */
+  if (prefix == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /* get name of this process */
   int rank_world, ranks_world;
   MPI_Comm_rank(comm, &rank_world);
@@ -535,6 +540,11 @@ int kvtree_read_scatter(
   /* assume that we won't succeed in our fetch attempt */
   int rc = KVTREE_SUCCESS;
 
+  /* check that we have a file name prefix */
+  if (prefix == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   int rank_world, ranks_world;
   MPI_Comm_rank(comm, &rank_world);
   MPI_Comm_size(comm, &ranks_world);
-- 
2.43.0


From 016cec4739bea3e9048cef85db86ca8a848d0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 25/30] fix: kvtree_util setters use key and value after
 releasing the field that may own them

Setting a field through the key of its own element, or a string field to
the value read from it, freed the key or value before copying it.
---
 src/kvtree_util.c | 100 ++++++++++++++++++++++++----------------------
 1 file changed, 53 insertions(+), 47 deletions(-)

diff --git a/src/kvtree_util.c b/src/kvtree_util.c
index 0af2fc5..a9a33ea 100644
--- a/src/kvtree_util.c
+++ b/src/kvtree_util.c
@@ -14,92 +14,98 @@
 /* need at least version 8.5 of queue.h from Berkeley */
 #include "queue.h"
 
-int kvtree_util_set_bytecount(kvtree* hash, const char* key, unsigned long count)
+/* bind key to v in hash, and drop any current setting of key */
+static int kvtree_util_replace(kvtree* hash, const char* key, kvtree* v)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  if (kvtree_set(hash, key, v) == NULL) {
+    kvtree_delete(&v);
+  }
+  return KVTREE_SUCCESS;
+}
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %lu", key, count);
+int kvtree_util_set_bytecount(kvtree* hash, const char* key, unsigned long count)
+{
+  /* build the new value before the current setting is released,
+   * since key and value may point into it */
+  kvtree* v = kvtree_new();
+  kvtree_setf(v, NULL, "%lu", count);
 
-  return KVTREE_SUCCESS;
+  return kvtree_util_replace(hash, key, v);
 }
 
 int kvtree_util_set_crc32(kvtree* hash, const char* key, uLong crc)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %#x", key, (uint32_t) crc);
+  /* build the new value before the current setting is released,
+   * since key and value may point into it */
+  kvtree* v = kvtree_new();
+  kvtree_setf(v, NULL, "%#x", (uint32_t) crc);
 
-  return KVTREE_SUCCESS;
+  return kvtree_util_replace(hash, key, v);
 }
 
 int kvtree_util_set_int(kvtree* hash, const char* key, int value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* build the new value before the current setting is released,
+   * since key and value may point into it */
+  kvtree* v = kvtree_new();
+  kvtree_setf(v, kvtree_new(), "%d", value);
 
-  /* then set the new value */
-  kvtree_set_kv_int(hash, key, value);
-
-  return KVTREE_SUCCESS;
+  return kvtree_util_replace(hash, key, v);
 }
 
 int kvtree_util_set_unsigned_long(kvtree* hash, const char* key, unsigned long value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* build the new value before the current setting is released,
+   * since key and value may point into it */
+  kvtree* v = kvtree_new();
+  kvtree_setf(v, NULL, "%lu", value);
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %lu", key, value);
-
-  return KVTREE_SUCCESS;
+  return kvtree_util_replace(hash, key, v);
 }
 
 int kvtree_util_set_str(kvtree* hash, const char* key, const char* value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* without a value, just unset any current setting */
+  if (value == NULL) {
+    return kvtree_unset(hash, key);
+  }
 
-  /* then set the new value */
-  kvtree_set_kv(hash, key, value);
+  /* build the new value before the current setting is released,
+   * since key and value may point into it */
+  kvtree* v = kvtree_new();
+  kvtree_set(v, value, kvtree_new());
 
-  return KVTREE_SUCCESS;
+  return kvtree_util_replace(hash, key, v);
 }
 
 int kvtree_util_set_int64(kvtree* hash, const char* key, int64_t value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %lld", key, value);
+  /* build the new value before the current setting is released,
+   * since key and value may point into it */
+  kvtree* v = kvtree_new();
+  kvtree_setf(v, NULL, "%lld", value);
 
-  return KVTREE_SUCCESS;
+  return kvtree_util_replace(hash, key, v);
 }
 
 int kvtree_util_set_double(kvtree* hash, const char* key, double value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %f", key, value);
+  /* build the new value before the current setting is released,
+   * since key and value may point into it */
+  kvtree* v = kvtree_new();
+  kvtree_setf(v, NULL, "%f", value);
 
-  return KVTREE_SUCCESS;
+  return kvtree_util_replace(hash, key, v);
 }
 
 int kvtree_util_set_ptr(kvtree* hash, const char* key, void* value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* build the new value before the current setting is released,
+   * since key and value may point into it */
+  kvtree* v = kvtree_new();
+  kvtree_setf(v, NULL, "%p", value);
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %p", key, value);
-
-  return KVTREE_SUCCESS;
+  return kvtree_util_replace(hash, key, v);
 }
 
 int kvtree_util_get_bytecount(const kvtree* hash, const char* key, unsigned long* val)
-- 
2.43.0


From bf504df628766b2a073aaba32d99314169035a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 26/30] fix: pass the size to the message of a failed
 kvtree_malloc

---
 src/kvtree_helpers.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index d7ba4e9..dc9539e 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -70,7 +70,9 @@ void* kvtree_malloc(size_t size, const char* file, int line)
   if (size > 0) {
     ptr = malloc(size);
     if (ptr == NULL) {
-      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", file, line);
+      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d",
+        (unsigned long long) size, file, line
+      );
     }
   }
   return ptr;
-- 
2.43.0


From 1591e5cd1abf49dd266ad58d454c8abcad473c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 27/30] fix: do not store an element without key when its key
 cannot be duplicated

---
 src/kvtree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index eed4994..497c51e 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -99,6 +99,11 @@ static kvtree_elem* kvtree_elem_init(kvtree_elem* elem, const char* key, kvtree*
   if (elem != NULL) {
     if (key != NULL) {
       elem->key = strdup(key);
+      if (elem->key == NULL) {
+        kvtree_abort(-1, "Failed to duplicate key string @ %s:%d",
+          __FILE__, __LINE__
+        );
+      }
     } else {
       /* bad idea to allow key to be set to NULL */
       elem->key = NULL;
-- 
2.43.0


From b5ef544d2427def724bfab359e8a54c53365a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 28/30] fix: check that file names could be duplicated when
 reading a set of files

---
 src/kvtree.c        |  7 ++++++-
 src/kvtree_mpi_io.c | 10 ++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 497c51e..eb434cb 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1963,8 +1963,13 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 
   /* Look at all the subfiles with our prefix and read in the file lists */
   char* prefix_dir_copy = strdup(prefix);
-  char* prefix_dir = dirname(prefix_dir_copy);
   char* prefix_file_copy = strdup(prefix);
+  if (prefix_dir_copy == NULL || prefix_file_copy == NULL) {
+    kvtree_abort(-1, "Failed to duplicate prefix string @ %s:%d",
+      __FILE__, __LINE__
+    );
+  }
+  char* prefix_dir = dirname(prefix_dir_copy);
   char* prefix_file = basename(prefix_file_copy);
 
   DIR* d = opendir(prefix_dir);
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 6d76d90..cccd1d2 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -477,6 +477,11 @@ static int kvtree_read_scatter_map(
       char mappath[1024];
       snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
       newfile = strdup(mappath);
+      if (newfile == NULL) {
+        kvtree_abort(-1, "Failed to duplicate file name @ %s:%d",
+          __FILE__, __LINE__
+        );
+      }
     } else {
       rc = KVTREE_FAILURE;
     }
@@ -561,6 +566,11 @@ int kvtree_read_scatter(
     /* rank 0 is only valid reader to start with */
     valid  = 1;
     file   = strdup(mappath);
+    if (file == NULL) {
+      kvtree_abort(-1, "Failed to duplicate file name @ %s:%d",
+        __FILE__, __LINE__
+      );
+    }
     offset = 0;
   }
   if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
-- 
2.43.0


From 7e5ec0a1d6f1459e7e8cd99d2eaf4104e2d99cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 29/30] verification hook: segment size of the gather writers
 can be set at build time (KVTREE_VERIF_SEGSIZE)

---
 src/kvtree_mpi_io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index cccd1d2..7c755a1 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -32,6 +32,9 @@ static int pick_writer(
 {
   /* use a segment size of 1MB */
   unsigned long segsize = 1024*1024;
+#ifdef KVTREE_VERIF_SEGSIZE
+  segsize = KVTREE_VERIF_SEGSIZE;
+#endif
 
   /* get communicator info */
   int rank, ranks;
-- 
2.43.0


From 3caafddb5bca18bbfc8c643d5f8bbc2e9155de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 30/30] fix: report a failed fsync when closing a file

Errors of delayed writes (EIO, ENOSPC, EDQUOT) are reported by fsync, which
kvtree_close ignored, so that a write was reported as successful although
its data was lost.
---
 src/kvtree_io.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 34f1c9f..30b165d 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -115,8 +115,16 @@ int kvtree_open(const char* file, int flags, ...)
 /* fsync and close file */
 int kvtree_close(const char* file, int fd)
 {
+  int rc = KVTREE_SUCCESS;
+
   /* fsync first */
   if (fsync(fd) < 0) {
+    /* data written to the file may be lost,
+     * unless it just doesn't support fsync (pipes and the like) */
+    if (errno != EINVAL && errno != EROFS) {
+      rc = KVTREE_FAILURE;
+    }
+
     /* print warning that fsync failed */
     kvtree_dbg(2, "Failed to fsync file descriptor: %s errno=%d %s @ %s:%d",
       file, errno, strerror(errno), __FILE__, __LINE__
@@ -132,7 +140,7 @@ int kvtree_close(const char* file, int fd)
     return KVTREE_FAILURE;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /*
-- 
2.43.0

