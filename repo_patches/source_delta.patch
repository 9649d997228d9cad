From d031fe177975ade94d6e64def76d421bf850a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 01/87] fix: index lookups must not seek before the first
 record of index.sorted

The predicted record number is relative to the first record, but the
seek was relative to the start of the file, and it could be negative.
---
 index.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/index.c b/index.c
index 71a1e23..a897907 100644
--- a/index.c
+++ b/index.c
@@ -357,7 +357,7 @@ bucket_seek(const void *rec, FILE *f)
 	long bucket;
 	uint64_t id;
 	unsigned nbucket;
-	unsigned nrec;
+	uint64_t nrec;
 	int64_t off;
 
 	AN(rec);
@@ -378,8 +378,11 @@ bucket_seek(const void *rec, FILE *f)
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
-		frac += off;
-		AZ(fseeko(f, (long)frac * 32, SEEK_SET));
+		off += (int64_t)frac;
+		if (off < 0)
+			off = 0;
+		// The records start after the buckets
+		AZ(fseeko(f, (1L << (nbucket + 3)) + off * 32, SEEK_SET));
 	} else {
 		AZ(fseeko(f, 1L << (nbucket + 3), SEEK_SET));
 	}
-- 
2.43.0


From cc8503fa3bce0cc399874af2f66acbfc380ca26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 02/87] fix: search for short IDs missed everything when their
 first index bucket is empty

---
 index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index a897907..235d62f 100644
--- a/index.c
+++ b/index.c
@@ -378,7 +378,10 @@ bucket_seek(const void *rec, FILE *f)
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
-		off += (int64_t)frac;
+		if (off >= 1L << 31)
+			off = 0;	// Empty bucket, search from start
+		else
+			off += (int64_t)frac;
 		if (off < 0)
 			off = 0;
 		// The records start after the buckets
-- 
2.43.0


From 8e5558382bd71546653cb3173b9eee01b262ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 03/87] fix: a resource with the same content as a warcinfo
 body or a continuation segment could not be retrieved

The Ident's are the same, but the index lookup gave up on the first one found.
---
 getjob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/getjob.c b/getjob.c
index 846881e..9aee316 100644
--- a/getjob.c
+++ b/getjob.c
@@ -92,7 +92,7 @@ getjob_iter(void *priv, const char *key,
 		gj->err = "ID is warcinfo segment";
 		Header_Destroy(&hdr);
 		Rsilo_Close(&rs);
-		return (-1);
+		return (0);
 	}
 	gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
 	if (gjs == NULL) {
@@ -105,7 +105,7 @@ getjob_iter(void *priv, const char *key,
 			gj->err = "ID is continuation segment";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	} else {
 		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
-- 
2.43.0


From a5a4fd6571f4241409b35687c80f22846c2de600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 04/87] fix: looking up a continuation must tolerate other
 records with the same truncated ID

Abort if the other record is not a continuation, bogus error if it is
another segment of the same object.
---
 getjob.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/getjob.c b/getjob.c
index 9aee316..9ff88b2 100644
--- a/getjob.c
+++ b/getjob.c
@@ -109,7 +109,12 @@ getjob_iter(void *priv, const char *key,
 		}
 	} else {
 		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
-		AN(p);
+		if (p == NULL) {
+			/* Something else with the same truncated ID */
+			Header_Destroy(&hdr);
+			Rsilo_Close(&rs);
+			return (0);
+		}
 		assert(p[0] == '<');
 		p++;
 		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
@@ -134,7 +139,7 @@ getjob_iter(void *priv, const char *key,
 			    "Continuation out of order.";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	}
 
-- 
2.43.0


From 4713845b2618b8ef09074838cdd34cbf7ee20039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 05/87] fix: audit of segmented objects with missing or
 out-of-order segments

The loop condition was inverted: it spun forever when a segment was
missing and gave up when the segments were not found in one pass.
After a missing segment the remaining segmented objects were skipped.
---
 main_audit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index b8c5e22..16df9b2 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -235,10 +235,10 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			}
 			ap = apn;
 		}
-	} while (ap == ap1);
+	} while (ap != ap1);
 
 	printf("ERROR: Failed to find segment %d\n", ap->segment + 1);
-	return (0);
+	return (-1);
 }
 
 static void
-- 
2.43.0


From f9d83040168b6cc4467e83b4d3752435e0561ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 06/87] fix: audit stopped at the first unused silo number

mksilo and segments stored concurrently can leave gaps in the
numbering, and everything after the gap was never audited.
---
 main_audit.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 16df9b2..c5bc7cd 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -375,6 +375,18 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	return (0);
 }
 
+static int v_matchproto_(byte_iter_f)
+audit_silo_iter(void *priv, const void *ptr, ssize_t len)
+{
+	struct aardwarc *aa;
+
+	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
+	(void)ptr;
+	if (audit_silo(aa, NULL, (int)len))
+		printf("ERROR: Cannot open silo #%d\n", (int)len);
+	return (0);
+}
+
 static
 void
 usage_audit(const char *a0, const char *a00, const char *err)
@@ -392,7 +404,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch, i;
+	int ch;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -419,9 +431,7 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		i = 0;
-		while (!audit_silo(aa, NULL, i++))
-			continue;
+		(void)Silo_Iter(aa, audit_silo_iter, aa);
 	} else {
 		while (argc-- > 0)
 			if (audit_silo(aa, *argv++, -1))
-- 
2.43.0


From afa948091d10eb0496ef5e1770d12d75f9297830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 07/87] fix: store committed a truncated object, and reported
 success, if reading the input failed midway

---
 aardwarc.h   | 1 +
 main_store.c | 5 +++++
 segjob.c     | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/aardwarc.h b/aardwarc.h
index 2413f47..64ac932 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -193,6 +193,7 @@ struct segjob *SegJob_New(struct aardwarc *, const struct header *,
     const char *);
 void SegJob_Feed(struct segjob *, const void *ptr, ssize_t len);
 char *SegJob_Commit(struct segjob *);
+void SegJob_Abandon(struct segjob **);
 
 /* silo.c */
 struct vsb *Silo_Filename(const struct aardwarc *, unsigned number, int hold);
diff --git a/main_store.c b/main_store.c
index 79236b7..9b2dd9b 100644
--- a/main_store.c
+++ b/main_store.c
@@ -267,6 +267,11 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		if (rlen > 0)
 			SegJob_Feed(sj, ibuf_ptr, rlen);
 	} while (rlen > 0);
+	if (rlen < 0) {
+		fprintf(stderr, "Input file read error: %s\n", strerror(errno));
+		SegJob_Abandon(&sj);
+		exit(1);
+	}
 
 	id = SegJob_Commit(sj);
 	printf("%s\n", id);
diff --git a/segjob.c b/segjob.c
index 731f373..44cf0d9 100644
--- a/segjob.c
+++ b/segjob.c
@@ -322,6 +322,15 @@ SegJob_Feed(struct segjob *sj, const void *iptr, ssize_t ilen)
 	} while (sj->gz->avail_in > 0 || ilen > 0);
 }
 
+void
+SegJob_Abandon(struct segjob **sjp)
+{
+	struct segjob *sj;
+
+	TAKE_OBJ_NOTNULL(sj, sjp, SEGJOB_MAGIC);
+	segjob_destroy(sj);
+}
+
 char *
 SegJob_Commit(struct segjob *sj)
 {
-- 
2.43.0


From 0051f68bfa504d4ce928d2d31ccab66f76c28f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 08/87] fix: store -i with a full URI aborted and left a silo
 hold behind

---
 main_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_store.c b/main_store.c
index 9b2dd9b..2e09d50 100644
--- a/main_store.c
+++ b/main_store.c
@@ -179,7 +179,7 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			exit(1);
 		}
 		if (i_arg != NULL) {
-			e = IDX_Valid_Id(aa, i_arg, NULL);
+			e = IDX_Valid_Id(aa, i_arg, &i_arg);
 			if (e != NULL) {
 				fprintf(stderr, "Illegal id (-i): %s\n", e);
 				exit(1);
-- 
2.43.0


From f09dd8694dd83163fdc8cb5eb3069e369c901164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 09/87] fix: store accepted mime-types which make the record
 unreadable

The WARC header must fit in a page for us to be able to read it back,
and a CRNL in the mime-type could add arbitrary fields to the header.
---
 main_store.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/main_store.c b/main_store.c
index 2e09d50..00f34ea 100644
--- a/main_store.c
+++ b/main_store.c
@@ -60,6 +60,18 @@ mime_type(struct aardwarc *aa, const char *wt, const char *mt)
 	int i;
 	const char *p, *g;
 
+	if (strlen(mt) > 1024) {
+		fprintf(stderr, "Illegal mime-type, too long\n");
+		return (-1);
+	}
+	for (p = mt; *p != '\0'; p++) {
+		if ((*p & 0xff) < ' ' || *p == 0x7f) {
+			fprintf(stderr,
+			    "Illegal mime-type, contains control characters\n");
+			return (-1);
+		}
+	}
+
 	if (wt == WT_RESOURCE)
 		g = "resource.mime-types";
 	else
-- 
2.43.0


From 4186cf3b7f638130d752c3cb6b1f3f7a90dfe331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 10/87] fix: a crash while committing the segments of an object
 made it impossible to ever store it

The first segment was committed first, and storing the object again
would find the old first segment, but not the segments it refers to.
Commit the first segment last.
---
 segjob.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/segjob.c b/segjob.c
index 44cf0d9..e964f7f 100644
--- a/segjob.c
+++ b/segjob.c
@@ -67,7 +67,7 @@ struct segjob {
 	const char		*ident;
 
 	int			nseg;
-	VTAILQ_HEAD(,segment)	segments;
+	VTAILQ_HEAD(segmenthead,segment)	segments;
 	struct segment		*cur_seg;
 	struct SHA256Context	sha256_payload[1];
 	struct SHA256Context	sha256_segment[1];
@@ -375,7 +375,11 @@ SegJob_Commit(struct segjob *sj)
 		return (id);
 	}
 
-	VTAILQ_FOREACH(sg, &sj->segments, list) {
+	/*
+	 * Last segment first, so that the object only becomes visible once
+	 * all its segments are in place.
+	 */
+	VTAILQ_FOREACH_REVERSE(sg, &sj->segments, segmenthead, list) {
 		if (sg->segno == 1)
 			Header_Set(sg->hdr, "WARC-Segment-Number", "1");
 		else
-- 
2.43.0


From e24eff291f13c51e0fc9cc0c7ae096185463db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 11/87] fix: index entries were inserted before the silo they
 point to existed

Until the link(2), and forever in case of a crash, lookups of the
object or storing it again would abort.
---
 wsilo.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 534f1c6..d606131 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -468,13 +468,13 @@ Wsilo_Install(struct wsilo **slp)
 
 	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
 
-	IDX_Insert(sl->aa,
-	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	/*
 	 * We don't use rename(2) because it wouldn't fail if the
 	 * destination silo already exists.
 	 */
 	AZ(link(VSB_data(sl->hold_fn), VSB_data(sl->silo_fn)));
+	IDX_Insert(sl->aa,
+	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	if (sl->silo_no == sl->aa->cache_first_non_silo) {
 		sl->aa->cache_first_non_silo++;
 		AardWARC_WriteCache(sl->aa);
@@ -489,7 +489,8 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 	struct vsb *vsb;
 	ssize_t s;
 	int i, done = 0;
-	uint32_t sn;
+	uint32_t sn, idx;
+	off_t off;
 	struct aardwarc *aa;
 	const char *t;
 
@@ -561,8 +562,12 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 		if (rid == NULL)
 			sl->idx |= IDX_F_LASTSEG;
 	}
-	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);
+	sn = sl->silo_no;
+	idx = sl->idx;
+	off = sl->hd_start;
 	Wsilo_Install(&sl);
+	/* The index must never point at a silo which is not there */
+	IDX_Insert(aa, id, idx, sn, off, rid);
 }
 
 void
-- 
2.43.0


From 18fc2bf08ef7d75f8e894f0f0b6776f0ffb3d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 12/87] fix: race between two processes creating the same silo

If the other process created the silo and dropped the hold, between
our stat(2) and our creation of the hold, we would only find out when
the link(2) failed.
---
 wsilo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wsilo.c b/wsilo.c
index d606131..3ebb9b6 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -167,6 +167,15 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 		exit(2);
 	}
 
+	if (!stat(VSB_data(vsb), &st)) {
+		/* Somebody else created it before we got the hold */
+		AZ(unlink(VSB_data(vsb2)));
+		AZ(close(fd));
+		VSB_delete(vsb);
+		VSB_delete(vsb2);
+		return (NULL);
+	}
+
 	ALLOC_OBJ(sl, WSILO_MAGIC);
 	if (sl == NULL)
 		return (NULL);
-- 
2.43.0


From 1debe753a7932c3da9ea84e8130ef2ef8ab7d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 13/87] fix: race between two processes creating the same silo
 directory

---
 wsilo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsilo.c b/wsilo.c
index 3ebb9b6..1caedac 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -99,7 +99,7 @@ silo_mkparentdir(const char *path)
 		if (i < 0)
 			return (i);
 		i = mkdir(p, 0755);
-		if (i < 0)
+		if (i < 0 && errno != EEXIST)
 			return (i);
 		i = stat(p, &st);
 	}
-- 
2.43.0


From 3e2bc4914dfea922448107818bff7ebe24e671dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 14/87] fix: infinite loop if the silo directory could not be
 created

Wsilo_Next() assumes that a NULL return means that the silo is taken,
and would happily try the next four billion ones.
---
 wsilo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsilo.c b/wsilo.c
index 1caedac..6f5a853 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -138,7 +138,7 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 	if (j) {
 		fprintf(stderr, "MKDIR %d %d %s\n",
 		    j, errno, strerror(errno));
-		return (NULL);
+		exit(2);
 	}
 
 	if (!stat(VSB_data(vsb2), &st)) {
-- 
2.43.0


From 64c9674a4a9cd9d85eafee4e4fb83c65603814c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 15/87] fix: a failed append to a silo could leave half a
 record behind

Once something else had been appended after it, neither audit nor
reindex would be able to read the silo.  Restore the silo to what it
was and use the silo we already have written instead.
---
 wsilo.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 6f5a853..8bcef40 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -440,13 +440,18 @@ silo_attempt_append(const struct wsilo *sl, uint32_t silono,
 		before = lseek(fds, 0, SEEK_END);
 		s = writev(fds, iov, 2);
 		after = lseek(fds, 0, SEEK_END);
-		assert(s >= 0);
-		assert((size_t)s == wlen);
-		assert((off_t)s == (after - before));
-
 		AZ(munmap(p, roundup(sl->hold_len, ps)));
 		// fprintf(stderr, "DEBUG: Wsilo_Append(%u) %ju\n", silono, need);
 
+		if (s < 0 || (size_t)s != wlen) {
+			fprintf(stderr, "Error appending to silo %s: %s\n",
+			    VSB_data(fn), s < 0 ? strerror(errno) : "Short write");
+			/* Do not leave half a record behind */
+			AZ(ftruncate(fds, before));
+			break;
+		}
+		assert((off_t)s == (after - before));
+
 		need = lseek(fds, 0, SEEK_CUR);
 		assert(need > s);
 		IDX_Insert(aa, id, sl->idx, silono, need - s, NULL);
-- 
2.43.0


From 0ece1c331259fac26c28a3410991db5f81fbc32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 16/87] fix: housekeeping could lose index entries inserted at
 the same time

IDX_Insert() could open the appendix before, and write to it after
housekeeping read and removed it.
---
 index.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index 235d62f..2df982b 100644
--- a/index.c
+++ b/index.c
@@ -136,6 +136,8 @@
 #include <stdlib.h>
 
 #include <sys/endian.h>
+#include <sys/file.h>
+#include <sys/stat.h>
 
 #include "vdef.h"
 
@@ -228,6 +230,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 	uint8_t rec[32];
 	int fd, i;
 	struct vsb *vsb;
+	struct stat st, st2;
 
 	assert(aa->id_size >= 16);
 
@@ -240,8 +243,17 @@ uint32_t silo, uint64_t offset, const char *cont)
 		idx_key_bin(rec + 28, cont, 4);
 
 	vsb = idx_filename(aa, "appendix");
-	fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
-	assert(fd >= 0);
+	while (1) {
+		fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
+		assert(fd >= 0);
+		AZ(flock(fd, LOCK_EX));
+		/* Housekeeping may have taken it before we got the lock */
+		AZ(fstat(fd, &st));
+		if (!stat(VSB_data(vsb), &st2) &&
+		    st.st_dev == st2.st_dev && st.st_ino == st2.st_ino)
+			break;
+		AZ(close(fd));
+	}
 	i = write(fd, rec, sizeof rec);
 	assert(i == (int)sizeof rec);
 	assert(close(fd) == 0);
@@ -599,6 +611,9 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		return (-1);
 	}
 
+	/* Wait for IDX_Insert()'s which got hold of it in time */
+	AZ(flock(fd, LOCK_EX));
+
 	do {
 		sz = read(fd, spc, aa->index_sort_size);
 		if (sz < 0) {
-- 
2.43.0


From 6ef367133d08b43118ae27f058c7b37864a03952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 17/87] fix: a short write to index.appendix made the entire
 index unreadable

---
 index.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 2df982b..77e9ed4 100644
--- a/index.c
+++ b/index.c
@@ -255,7 +255,11 @@ uint32_t silo, uint64_t offset, const char *cont)
 		AZ(close(fd));
 	}
 	i = write(fd, rec, sizeof rec);
-	assert(i == (int)sizeof rec);
+	if (i != (int)sizeof rec) {
+		/* Half a record would make everything after it unreadable */
+		AZ(ftruncate(fd, st.st_size));
+		WRONG("Error writing to index.appendix");
+	}
 	assert(close(fd) == 0);
 	VSB_delete(vsb);
 }
-- 
2.43.0


From db146d0f7c30d4bf006273e122eeb78fc7e64d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 18/87] fix: lookups could miss entries while housekeeping was
 running

If the sorted index was read before, and the appendix after housekeeping
had moved the entry, it was found in neither.
---
 index.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/index.c b/index.c
index 77e9ed4..87c890f 100644
--- a/index.c
+++ b/index.c
@@ -422,11 +422,13 @@ static const struct idxfiles {
 	{ NULL, 0}
 };
 
+#define NIDXFILES (sizeof(idxfiles)/sizeof(idxfiles[0]) - 1)
+
 int
 IDX_Iter(const struct aardwarc *aa, const char *key_part,
     idx_iter_f *func, void *priv)
 {
-	FILE *f;
+	FILE *f, *ff[NIDXFILES];
 	const struct idxfiles *idf;
 	uint8_t key_p[KEYSUMM];
 	uint8_t rec[32];
@@ -434,6 +436,7 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	char key[25];
 	char cont[9];
 	int i, j;
+	unsigned u;
 	struct vsb *vsb;
 	int cl;
 
@@ -451,13 +454,22 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 		cl = 0;
 	}
 
+	/*
+	 * Housekeeping moves entries from the appendix, via the housekeeping
+	 * snapshot to the sorted file.  Open the files in that order, so that
+	 * we do not miss entries being moved underway.
+	 */
+	for (u = 1; u <= NIDXFILES; u++) {
+		vsb = idx_filename(aa, idxfiles[u % NIDXFILES].suff);
+		ff[u % NIDXFILES] = fopen(VSB_data(vsb), "r");
+		VSB_delete(vsb);
+	}
+
 	i = -1;
 	for (idf = idxfiles; idf->suff != NULL; idf++) {
-		vsb = idx_filename(aa, idf->suff);
-		f = fopen(VSB_data(vsb), "r");
+		f = ff[idf - idxfiles];
 		if (f == NULL)
 			continue;
-		VSB_delete(vsb);
 		if (idf->sorted)
 			bucket_seek(key_p, f);
 		do {
@@ -487,10 +499,12 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 			i = func(priv, key, be32dec(rec + 12),
 			    be32dec(rec + 16), off, cont);
 		} while (i == 0);
-		AZ(fclose(f));
 		if (i)
 			break;
 	}
+	for (u = 0; u < NIDXFILES; u++)
+		if (ff[u] != NULL)
+			AZ(fclose(ff[u]));
 	return (i);
 }
 
-- 
2.43.0


From bc5803c02204ca06b9f4e1cdaf0be12fbac87ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 19/87] fix: double free when housekeeping cannot open its
 snapshot

---
 index.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/index.c b/index.c
index 87c890f..f7d1474 100644
--- a/index.c
+++ b/index.c
@@ -625,7 +625,6 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		fprintf(stderr,
 		    "Error opening housekeeping snapshot: %s\n",
 		    strerror(errno));
-		free(spc);
 		return (-1);
 	}
 
-- 
2.43.0


From c0e8ef0917ececc79ac0db04c119410fc9aaa471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 20/87] fix: index I/O errors were treated as end of file by
 lookups

So objects in the archive would be reported as "ID not found"
---
 index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index.c b/index.c
index f7d1474..6d86cd7 100644
--- a/index.c
+++ b/index.c
@@ -462,6 +462,7 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	for (u = 1; u <= NIDXFILES; u++) {
 		vsb = idx_filename(aa, idxfiles[u % NIDXFILES].suff);
 		ff[u % NIDXFILES] = fopen(VSB_data(vsb), "r");
+		assert(ff[u % NIDXFILES] != NULL || errno == ENOENT);
 		VSB_delete(vsb);
 	}
 
@@ -474,6 +475,7 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 			bucket_seek(key_p, f);
 		do {
 			i = fread(rec, 1, sizeof rec, f);
+			AZ(ferror(f));
 			if (i == 0)
 				break;
 			assert(i == (int)sizeof rec);
-- 
2.43.0


From 6fb21508bf6facab0e46731199c68002baff0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 21/87] fix: I/O errors and short reads made housekeeping drop
 index entries

A read error on index.sorted was treated as end of file, and anything
in the snapshot after a short read (read(2) never returns more than 2GB)
was removed without having been merged.
---
 index.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/index.c b/index.c
index 6d86cd7..8f8ef51 100644
--- a/index.c
+++ b/index.c
@@ -356,13 +356,13 @@ bucket_write(const struct bucket *bp, FILE *f)
 		((int64_t)bp->bbucket << 40) |
 		(int64_t)bp->nrec;
 
-	fflush(f);
+	AZ(fflush(f));
 	AZ(fseeko(f, 0, SEEK_SET));
 	for (i = 0; i < bp->nbucket; i++) {
 		be64enc(buf, bp->buckets[i]);
 		assert(1 == fwrite(buf, 8, 1, f));
 	}
-	fflush(f);
+	AZ(fflush(f));
 }
 
 static void
@@ -530,6 +530,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 
 	vsb1 = idx_filename(aa, SUFF_SORTED);
 	f1 = fopen(VSB_data(vsb1), "r");
+	assert(f1 != NULL || errno == ENOENT);
 
 	bprintf(buf, "tmp.%jd", (intmax_t)getpid());
 	vsb2 = idx_filename(aa, buf);
@@ -552,6 +553,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 		bucket_skip(f1);
 		while (1) {
 			sz = fread(rec, 32, 1, f1);
+			AZ(ferror(f1));
 			if (sz == 0)
 				break;
 			assert(memcmp(rec, recl, 32) >= 0);
@@ -647,7 +649,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		AZ(sz & 0x1f);
 		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
 		idx_merge(aa, spc, sz);
-	} while (sz == (ssize_t)aa->index_sort_size);
+	} while (1);
 	AZ(close(fd));
 	AZ(unlink(VSB_data(vsbh)));
 	return (retval);
-- 
2.43.0


From f679760a81ddef20e454b0d94b09d8b4a23de6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 22/87] fix: filter never found any objects when the IDs are
 less than 96 bits long

---
 main_filter.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index 91bcfc1..a2271f9 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -111,20 +111,26 @@ filter_iter(void *priv, const char *key,
 {
 	struct cand *c;
 	struct filt *fp;
+	size_t kl;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
 	(void)flag;
 	(void)cont;
 
+	/* The key is always 24 digits, the ID can be shorter or longer */
+	kl = strlen(key);
+	if (kl > fp->aa->id_size)
+		kl = fp->aa->id_size;
+
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
 	if (next_cand == NULL || strcmp(key, fp->last) < 0)
 		next_cand = VTAILQ_FIRST(&sorted);
 	strlcpy(fp->last, key, sizeof fp->last);
-	while (next_cand != NULL && strcmp(next_cand->id, key) < 0)
+	while (next_cand != NULL && strncmp(next_cand->id, key, kl) < 0)
 		next_cand = VTAILQ_NEXT(next_cand, sortlist);
 	while (next_cand != NULL &&
-	    !strncmp(key, next_cand->id, strlen(key))) {
+	    !strncmp(key, next_cand->id, kl)) {
 		c = next_cand;
 		next_cand = VTAILQ_NEXT(c, sortlist);
 		if (!s_flag || !filter_s_check(fp, silo, offset, c->id)) {
-- 
2.43.0


From 489715c73e329c3c33df2c29d58f79898d3221ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 23/87] fix: filter did not find objects if the ID was in upper
 case

---
 main_filter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main_filter.c b/main_filter.c
index a2271f9..48a364e 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -31,6 +31,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 #include <unistd.h>
 
 #include "vdef.h"
@@ -179,6 +180,8 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		}
 		REPLACE(c1->id, p);
 		AN(c1->id);
+		for (p = c1->id; *p != '\0'; p++)
+			*p = (char)tolower(*p);
 		c2 = VTAILQ_LAST(&candidates, candhead);
 		ncand++;
 		VTAILQ_INSERT_TAIL(&candidates, c1, list);
-- 
2.43.0


From 295342e75aa3032e16f1733dd147f1ad7f80e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 24/87] fix: filter -s missed objects where the first 96 bits
 of the ID are not unique

The silo header of only the first of the index entries was examined.
---
 main_filter.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index 48a364e..4f94465 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -110,7 +110,7 @@ static int v_matchproto_(idx_iter_f)
 filter_iter(void *priv, const char *key,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
 {
-	struct cand *c;
+	struct cand *c, *c2;
 	struct filt *fp;
 	size_t kl;
 
@@ -130,12 +130,14 @@ filter_iter(void *priv, const char *key,
 	strlcpy(fp->last, key, sizeof fp->last);
 	while (next_cand != NULL && strncmp(next_cand->id, key, kl) < 0)
 		next_cand = VTAILQ_NEXT(next_cand, sortlist);
-	while (next_cand != NULL &&
-	    !strncmp(key, next_cand->id, kl)) {
-		c = next_cand;
-		next_cand = VTAILQ_NEXT(c, sortlist);
+	/* The ones we do not find may be in the next index entry */
+	for (c = next_cand;
+	    c != NULL && !strncmp(key, c->id, kl); c = c2) {
+		c2 = VTAILQ_NEXT(c, sortlist);
 		if (!s_flag || !filter_s_check(fp, silo, offset, c->id)) {
 			c->found = 1;
+			if (c == next_cand)
+				next_cand = c2;
 			VTAILQ_REMOVE(&sorted, c, sortlist);
 		}
 	}
-- 
2.43.0


From 1652a44ac659920b20c12035b20b60d03c107041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 25/87] fix: get -o to a file which cannot be opened crashed

---
 main_get.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main_get.c b/main_get.c
index 306a2b5..da7e217 100644
--- a/main_get.c
+++ b/main_get.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -135,6 +136,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 
 	if (of != NULL) {
 		gp->dst = fopen(of, "w");
+		if (gp->dst == NULL) {
+			fprintf(stderr, "Cannot open %s: %s\n",
+			    of, strerror(errno));
+			exit(1);
+		}
 		gp->hdr = stdout;
 	} else {
 		gp->dst = stdout;
-- 
2.43.0


From a6cb34e5ba72d70bc594afa3280eb115d119779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 26/87] fix: get did not notice if the last part of the output
 could not be written

---
 main_get.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main_get.c b/main_get.c
index da7e217..725a94f 100644
--- a/main_get.c
+++ b/main_get.c
@@ -191,6 +191,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		}
 	}
 
+	if (fflush(gp->dst) || ferror(gp->dst)) {
+		fprintf(stderr, "Error writing output: %s\n", strerror(errno));
+		exit(1);
+	}
+
 	FREE_OBJ(gp);
 	GetJob_Delete(&gj);
 	return (0);
-- 
2.43.0


From a855c42a771c32a02ddc69f93c928891ebe0bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 27/87] fix: rebuild wrote a NUL past the end of its buffer

---
 main_rebuild.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 2feeef0..bbcef13 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -266,7 +266,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 
 	do {
 		zs->next_out = (void*)obuf;
-		zs->avail_out = sizeof obuf;
+		zs->avail_out = sizeof obuf - 1;
 		if (!zs->avail_in) {
 			rz = fread(ibuf, 1, sizeof ibuf, fi);
 			if (!rz)
@@ -275,7 +275,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 			zs->avail_in = rz;
 		}
 		i = inflate(zs, 0);
-		oz = sizeof obuf - zs->avail_out;
+		oz = (sizeof obuf - 1) - zs->avail_out;
 		obuf[oz] = '\0';
 		rebuild_process(rb, obuf, oz);
 		if (i == Z_STREAM_END) {
-- 
2.43.0


From 438d4233d6ffcf9d33a70496dc972d4933f5330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 28/87] fix: rebuild overflowed its buffer if a record with
 WARC-record-digest was too long

---
 main_rebuild.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_rebuild.c b/main_rebuild.c
index bbcef13..23dd0b1 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -136,6 +136,7 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			oz = rb->clen - rb->rlen;
 			if (len < oz)
 				oz = len;
+			xxxassert(rb->rlen + oz <= (intmax_t)sizeof rb->fixbuf);
 			SHA256_Update(rb->sha256, ptr, oz);
 			memcpy(rb->fixbuf + rb->rlen, ptr, oz);
 			ptr += oz;
-- 
2.43.0


From c294d0a5fbeac676be541fa025e737e10900fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 29/87] fix: rebuild reported success for silos it could not
 read all of

Also close the silo when done with it, or we run out of filedescriptors.
---
 main_rebuild.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 23dd0b1..01a9294 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -250,7 +250,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	if (fi == NULL) {
 		fprintf(stderr,
 		    "Cannot open %s: %s\n", (const char*)fn, strerror(errno));
-		return (0);
+		exit(1);
 	}
 	fprintf(stderr, "SILO NO %zd FN %s\n", silono, (const char *)fn);
 	VSB_clear(rb->vsb);
@@ -288,6 +288,13 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 
 	AZ(close(rb->fdo));
 
+	if (i != Z_OK || zs->total_in > 0 || rb->state != 0 || ferror(fi)) {
+		fprintf(stderr,
+		    "Silo is truncated or damaged %s\n", (const char*)fn);
+		exit(1);
+	}
+	AZ(inflateEnd(zs));
+	AZ(fclose(fi));
 	return(0);
 }
 
-- 
2.43.0


From f3d4064422475dc14fe34d06457e219ad89da5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 30/87] fix: reindex reported success if a silo could not be
 opened

---
 silo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/silo.c b/silo.c
index a99e7b1..27b3a28 100644
--- a/silo.c
+++ b/silo.c
@@ -109,5 +109,5 @@ Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 			retval = func(priv, VSB_data(vsb), u);
 		VSB_delete(vsb);
 	}
-	return (0);
+	return (retval);
 }
-- 
2.43.0


From 847ff5aff1afc07b879e9f1a47bba19e513de5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 31/87] fix: stow overflowed its path buffer in deep trees with
 many non-ASCII characters

---
 main_stow.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index a3b1ad3..2ddd95f 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -111,7 +111,8 @@ static VTAILQ_HEAD(,stow_job)	job_list = VTAILQ_HEAD_INITIALIZER(job_list);
 
 /**********************************************************************/
 
-static char mtree_path[4096];
+/* vis(3) encoding can quadruple the length of the path */
+static char mtree_path[4 * 4096 + 2];
 static int mtree_type_dir;
 static struct dir *pwd;
 static int send_fd = -1;
@@ -177,6 +178,8 @@ mtree_interpret(char *line)
 			VTAILQ_INSERT_TAIL(&subj_list, cp, list);
 			proto_ctl_ev(stevedore_0_ev, 1);
 		} else {
+			assert(strlen(mtree_path) + strlen(w0) + 1 <
+			    sizeof mtree_path);
 			strcat(mtree_path, "/");
 			strcat(mtree_path, w0);
 			// printf("D %s\n", mtree_path + 1);
-- 
2.43.0


From 42a9d93af01c2f6ac8ee12f5fce3a3581c0d3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 32/87] fix: stow sent the metadata too early or aborted in the
 next job

---
 main_stow.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 2ddd95f..cd1d848 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -483,6 +483,7 @@ data_resp(struct stow_job *sj, char *p, size_t len)
 				__func__, __LINE__, cp->digest, pp);
 		}
 		AZ(strncmp(cp->digest, pp, strlen(pp)));
+		VTAILQ_REMOVE(&ack_list, cp, list);
 		metadata(sj, cp);
 		return;
 	}
@@ -620,7 +621,9 @@ stevedore_out(int fd, void *priv, int revents)
 			exit(2);
 		}
 	}
-	if (sj->meta != NULL)
+	/* The metadata must come after all the files have been stored */
+	if (sj->meta != NULL && send_fd < 0 && VTAILQ_EMPTY(&get_list) &&
+	    VTAILQ_EMPTY(&ack_list))
 		send_metadata(sj, fd);
 
 	AN(stevedore_0_ev);
-- 
2.43.0


From d27d9649d33599da1ec9d71e3046b1fddc7ad828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 33/87] fix: stow and stevedore deadlocked if many files had to
 be archived

---
 main_stow.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index cd1d848..7916920 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -30,6 +30,7 @@
 #include <ctype.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <poll.h>
 #include <sha256.h>
 #include <stdio.h>
@@ -578,8 +579,15 @@ stevedore_out(int fd, void *priv, int revents)
 			j = sj->id_size;
 		proto_out(fd, PROTO_FILTER, cp->digest, j);
 	}
+	if (i > 0)
+		return;
 	if (send_fd > 0) {
-		i = read(send_fd, buf, sizeof buf);
+		/*
+		 * Never write more than poll(2) promised there is room for:
+		 * If we block here while the stevedore blocks sending us
+		 * replies, we deadlock.
+		 */
+		i = read(send_fd, buf, PIPE_BUF - 5);
 		assert(i >= 0);
 		proto_out(fd, PROTO_DATA, buf, i);
 		if (i > 0)
-- 
2.43.0


From 02f73e2f04a41e37d68c0e7d1a1dd1cf77dd5073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 34/87] fix: stow reported success if the stevedore left before
 everything was stowed

---
 main_stow.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/main_stow.c b/main_stow.c
index 7916920..6611b19 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -95,6 +95,7 @@ struct stow_job {
 	const char		*job;
 	int			target_dir;
 	size_t			id_size;
+	int			stowed;
 
 	pid_t			mtree_pid;
 	FILE *			mtree_tmp;
@@ -544,6 +545,7 @@ stevedore_in(int fd, void *priv, int revents)
 		break;
 	case PROTO_META:
 		fprintf(stderr, "STOWED as %s\n", (char*)u);
+		sj->stowed = 1;
 		proto_del_ev(&stevedore_0_ev);
 		break;
 	default:
@@ -785,6 +787,13 @@ main_stow(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			exit(2);
 		}
 
+		if (!sj->stowed) {
+			fprintf(stderr,
+			    "Stevedore left before job %s was stowed\n",
+			    sj->job);
+			exit(2);
+		}
+
 		fprintf(stderr, "Done job %s\n", sj->job);
 	}
 	return (0);
-- 
2.43.0


From d0babc139d3d1d0ff16e35aeb63f4bdc1f14109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 35/87] fix: stevedore used freed memory if its input ended in
 the middle of an ID

---
 main_stevedore.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 1f8f30f..4f6d405 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -330,13 +330,12 @@ input(int fd, void *priv, int revents)
 	case PROTO_FILTER:
 		ALLOC_OBJ(fp, FILTER_MAGIC);
 		AN(fp);
-		VTAILQ_INSERT_TAIL(&filter_queue, fp, list);
 		if (size != 0) {
 			assert(size >= g_aa->id_size && size <= 64);
 			j = 0;
 			while (size > j) {
 				i = read(0, fp->id + j, size - j);
-				if (i == 0) {
+				if (i <= 0) {
 					proto_del_ev(&stdin_ev);
 					FREE_OBJ(fp);
 					return;
@@ -346,6 +345,7 @@ input(int fd, void *priv, int revents)
 			fp->id[size] = '\n';
 			fp->id[size + 1L] = '\0';
 		}
+		VTAILQ_INSERT_TAIL(&filter_queue, fp, list);
 		if (filter_job == NULL)
 			start_filter();
 		break;
@@ -385,7 +385,7 @@ input(int fd, void *priv, int revents)
 			assert (size + 1UL < sizeof buf);
 			while (size > j) {
 				i = read(0, buf + j, size - j);
-				if (i == 0) {
+				if (i <= 0) {
 					proto_del_ev(&stdin_ev);
 					return;
 				}
-- 
2.43.0


From 16f7fdedf2a6d46fe45551ab8b180ac6108c4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 36/87] fix: stevedore aborted if its client closed right after
 sending the metadata

---
 main_stevedore.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 4f6d405..11bec16 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -276,7 +276,9 @@ meta_line(void *priv, const char *line)
 
 	CAST_OBJ_NOTNULL(jp, priv, JOB_MAGIC);
 	proto_out(1, PROTO_META, line, strlen(line));
-	proto_ctl_ev(stdin_ev, 1);
+	/* stdin can be gone already, we do not disable it for metadata */
+	if (stdin_ev)
+		proto_ctl_ev(stdin_ev, 1);
 	return (0);
 }
 
-- 
2.43.0


From 1b81050fd06136c100f3ef49c36aa374b85de104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 37/87] fix: stevedore lost the reply if the WARC-Record-ID
 prefix is long

---
 main_stevedore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 11bec16..5c20f80 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -139,7 +139,8 @@ job_start(vlu_f *line, job_func *eof, ...)
 	AZ(close(fdo[1]));
 	jp->fd_to = fdi[1];
 	jp->fd_fm = fdo[0];
-	jp->vlu = VLU_New(line, jp, 256);
+	/* The line can be an URI: prefix and ID */
+	jp->vlu = VLU_New(line, jp, 256 + strlen(g_aa->prefix));
 	AN(jp->vlu);
 	jp->func_end = eof;
 	jp->ev = proto_add_ev(jp->fd_fm, POLLIN, job_ev, jp);
-- 
2.43.0


From 501f2a724a77f3209de7f6e7b360c02acee9c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 38/87] fix: stevedore hung forever if its client left in the
 middle of an object

---
 main_stevedore.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main_stevedore.c b/main_stevedore.c
index 5c20f80..f93539a 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -322,6 +322,10 @@ input(int fd, void *priv, int revents)
 	i = proto_in(fd, &cmd, &size);
 	if (i == 0) {
 		proto_del_ev(&stdin_ev);
+		if (store_job != NULL || meta_job != NULL) {
+			/* They will wait forever for the rest of it */
+			exit(3);
+		}
 		return;
 	}
 	if (i != 1)
-- 
2.43.0


From fdc832534d28024f7f7969a315d40ff2a0684a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 39/87] fix: audit -i ignore-metadata-record-id was not
 honoured for segmented metadata

---
 main_audit.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index c5bc7cd..d7dc184 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -159,8 +159,7 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	char buf[64];
 	char dig[SHA256_DIGEST_STRING_LENGTH];
 	char id[SHA256_DIGEST_STRING_LENGTH];
-
-	(void)aa;
+	const char *type;
 
 	bprintf(buf, "%jd", (intmax_t)ap0->sz);
 	audit_check_header(err, apn, "WARC-Segment-Total-Length", buf);
@@ -168,6 +167,11 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	(void)SHA256_End(ap0->sha256, dig);
 	audit_check_digest_header(err, ap0, "WARC-Payload-Digest", dig);
 
+	type = Header_Get(ap0->hdr, "WARC-Type");
+	AN(type);
+	if (!strcmp(type, "metadata") && ignore_metadata_record_id)
+		return;
+
 	Ident_Create(aa, ap0->hdr, dig, id);
 	if (strcmp(id, Header_Get_Id(ap0->hdr))) {
 		VSB_printf(err, "ERROR: %s difference\n", "WARC-Record-ID");
-- 
2.43.0


From e73d20da68ce2a12ccc829c1399685771f153ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 40/87] fix: output which could not be written was not noticed

---
 main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 005be74..43aed6f 100644
--- a/main.c
+++ b/main.c
@@ -196,5 +196,11 @@ main(int argc, char **argv)
 	VSB_delete(vsb2);
 	VSB_delete(vsb3);
 
-	return (call_main(a0, aa, argc, argv));
+	ch = call_main(a0, aa, argc, argv);
+	if (fflush(stdout) || ferror(stdout)) {
+		fprintf(stderr, "Error writing output: %s\n", strerror(errno));
+		if (ch == 0)
+			ch = 1;
+	}
+	return (ch);
 }
-- 
2.43.0


From 2ec697bee162de277f98014580195888aff8e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 41/87] fix: filter did not notice errors on its input and
 output files

---
 main_filter.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/main_filter.c b/main_filter.c
index 4f94465..aa82f54 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -191,6 +191,10 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		if (c2 != NULL && strcmp(c2->id, c1->id) > 0)
 			retval = 1;
 	}
+	if (ferror(fi)) {
+		fprintf(stderr, "Error reading IDs: %s\n", strerror(errno));
+		exit(1);
+	}
 	return (retval);
 }
 
@@ -306,6 +310,10 @@ main_filter(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		REPLACE(c->id, NULL);
 		FREE_OBJ(c);
 	}
+	if (fflush(fo) || ferror(fo)) {
+		fprintf(stderr, "Error writing output: %s\n", strerror(errno));
+		exit(1);
+	}
 	FREE_OBJ(fp);
 	return (0);
 }
-- 
2.43.0


From be1932cac36786b23c04bde89d5a2edd0d9ed265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 42/87] fix: negative and astronomical sizes in the
 configuration were accepted

---
 vnum.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vnum.c b/vnum.c
index 052f95a..073b5df 100644
--- a/vnum.c
+++ b/vnum.c
@@ -110,6 +110,8 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 		return (err_invalid_num);
 
 	if (end == NULL) {
+		if (fval < 0. || fval >= 0x1p63)
+			return (err_invalid_num);
 		*r = (uintmax_t)fval;
 		return (NULL);
 	}
@@ -156,6 +158,9 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 			return (err_invalid_suff);
 	}
 
+	/* Sizes end up as off_t */
+	if (fval < 0. || fval >= 0x1p63)
+		return (err_invalid_num);
 	*r = (uintmax_t)round(fval);
 	return (NULL);
 }
-- 
2.43.0


From 2b8d6f784f3bf4555d0e37248898f288f5ea0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 43/87] fix: a silo.basename without a conversion gave all
 silos the same name

---
 aardwarc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aardwarc.c b/aardwarc.c
index 611c362..475b6ec 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -48,6 +48,7 @@ AardWARC_New(const char *config_file, struct vsb *err)
 {
 	int e;
 	struct aardwarc *aa;
+	char buf1[BUFSIZ], buf2[BUFSIZ];
 	const char *p, *p2;
 	uintmax_t um;
 
@@ -125,6 +126,15 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			    "Must have a single %u compatible printf-pattern");
 			break;
 		}
+		/* fmtcheck(3) accepts patterns without any conversion */
+		bprintf(buf1, p, 1U);
+		bprintf(buf2, p, 2U);
+		if (!strcmp(buf1, buf2)) {
+			VSB_printf(err,
+			    "'silo.basename' wrong format. %s\n",
+			    "Must have a single %u compatible printf-pattern");
+			break;
+		}
 		aa->silo_basename = p;
 		if (strchr(p, '/') != NULL) {
 			VSB_printf(err,
-- 
2.43.0


From a7a55b9c7cf46eee985fac4bb13467362f3fdace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 44/87] fix: malformed optional parameters in the configuration
 were silently replaced by the default

---
 aardwarc.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/aardwarc.c b/aardwarc.c
index 475b6ec..fadac63 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -105,8 +105,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "silo.max_size", &p, NULL))
+		e = Config_Get(aa->cfg, "silo.max_size", &p, NULL);
+		if (e == ENOENT)
 			p = "3.5G";
+		else if (e) {
+			VSB_printf(err,
+			    "'silo.max_size' must be a single word.\n");
+			break;
+		}
 
 		p2 = VNUM_2bytes(p, &um, 0);
 		if (p2 != NULL) {
@@ -117,8 +123,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 		aa->silo_maxsize = (off_t)um;
 		assert(um == (uintmax_t)aa->silo_maxsize);
 
-		if (Config_Get(aa->cfg, "silo.basename", &p, NULL))
+		e = Config_Get(aa->cfg, "silo.basename", &p, NULL);
+		if (e == ENOENT)
 			p = "%08u.warc.gz";
+		else if (e) {
+			VSB_printf(err,
+			    "'silo.basename' must be a single word.\n");
+			break;
+		}
 
 		if (fmtcheck(p, "%u") != p) {
 			VSB_printf(err,
@@ -142,8 +154,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "index.sort_size", &p, NULL))
+		e = Config_Get(aa->cfg, "index.sort_size", &p, NULL);
+		if (e == ENOENT)
 			p = "10M";
+		else if (e) {
+			VSB_printf(err,
+			    "'index.sort_size' must be a single word.\n");
+			break;
+		}
 		p2 = VNUM_2bytes(p, &um, 0);
 		if (p2 != NULL) {
 			VSB_printf(err,
-- 
2.43.0


From 1f28ac1d96d1eec3e016ad59f3cdef16ef23618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 45/87] fix: everything after a syntax error in the
 configuration file was ignored

---
 config.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/config.c b/config.c
index 925cc65..f8f988e 100644
--- a/config.c
+++ b/config.c
@@ -199,8 +199,12 @@ Config_Read(const char *fn)
 	}
 	cfg->space[st.st_size] = '\0';
 	e = config_parse(cfg);
-	if (e != NULL)
+	if (e != NULL) {
 		fprintf(stderr, "Config = %s\n", e);
+		config_destroy(cfg);
+		errno = EINVAL;
+		return (NULL);
+	}
 
 	return (cfg);
 }
-- 
2.43.0


From cdba36a267d9aea94eb4a88b2fadc687b23a7196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 46/87] fix: store aborted on some highly compressible objects

The space reserved for the headers with lengths assumed at most 99%
compression, and no growth of the total length in the last segment.
---
 segjob.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/segjob.c b/segjob.c
index e964f7f..2ae12c7 100644
--- a/segjob.c
+++ b/segjob.c
@@ -125,12 +125,13 @@ segjob_newseg(struct segjob *sj)
 	Header_Set(sg->hdr, "WARC-Block-Digest", "sha256:%s", digest);
 
 	/*
-	 * We reserve two extra digits to allow up to 99% compression.
+	 * We reserve four extra digits because deflate can compress by
+	 * more than a factor of 1000.
 	 * This also covers the case where data is already gzip'ed and
 	 * the C-L-G is longer than the C-L
 	 */
 	im = sj->aa->silo_maxsize;
-	Header_Set(sg->hdr, "Content-Length", "00%jd", im);
+	Header_Set(sg->hdr, "Content-Length", "0000%jd", im);
 
 	if (sg->segno == 1) {
 		pad += Header_Len("WARC-Segment-Number", "1");
@@ -142,7 +143,7 @@ segjob_newseg(struct segjob *sj)
 
 		/* In case this becomes the last segment */
 		im = sj->size + sj->aa->silo_maxsize;
-		pad += Header_Len("WARC-Segment-Total-Length", "%00jd", im);
+		pad += Header_Len("WARC-Segment-Total-Length", "0000%jd", im);
 	}
 
 	REPLACE(digest, NULL);
-- 
2.43.0


From 76ad0d1d16370c656864d5f438ce3943ede4cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 47/87] fix: dumpindex -t did not show segmented objects

---
 main_dumpindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_dumpindex.c b/main_dumpindex.c
index 77fcb25..f1b8427 100644
--- a/main_dumpindex.c
+++ b/main_dumpindex.c
@@ -57,7 +57,7 @@ dumpindex_iter(void *priv, const char *key,
 	uint32_t *u;
 
 	u = priv;
-	if (*u != 0 && flag != *u)
+	if (*u != 0 && !(flag & *u))
 		return (0);
 	printf("%s 0x%08x %8u %12jd %s\n", key, flag, silo, offset, cont);
 	return(0);
-- 
2.43.0


From 4604bb7ba7d264c99759a62a56cba2b0caac0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 48/87] fix: reindex and audit missed all silos after a missing
 directory

---
 silo.c | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/silo.c b/silo.c
index 27b3a28..5e333c9 100644
--- a/silo.c
+++ b/silo.c
@@ -86,28 +86,44 @@ int
 Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 {
 	struct vsb *vsb;
-	uint32_t u;
+	uint64_t u, lo, hi;
 	struct stat st;
-	int i, retval = 0;
+	int i, lvl, retval = 0;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 	AN(func);
 
-	for (u = 0; retval == 0; u++) {
+	/* There may be holes in the numbering, skip missing directories */
+	for (lvl = 0, lo = 0, hi = 100; lo <= UINT32_MAX;
+	    lvl++, lo = hi, hi *= 100) {
 		vsb = VSB_new_auto();
 		AN(vsb);
-		VSB_cat(vsb, aa->silo_dirname);
-		numpart(vsb, 0, u);
+		VSB_printf(vsb, "%s%d", aa->silo_dirname, lvl);
 		AZ(VSB_finish(vsb));
 		i = stat(VSB_data(vsb), &st);
-		if (i && errno == ENOENT)
-			break;
-		VSB_delete(vsb);
-		vsb = Silo_Filename(aa, u, 0);
-		i = stat(VSB_data(vsb), &st);
-		if (!i && S_ISREG(st.st_mode))
-			retval = func(priv, VSB_data(vsb), u);
 		VSB_delete(vsb);
+		if (i && errno == ENOENT)
+			continue;
+		for (u = lo; u < hi && u <= UINT32_MAX && retval == 0; u++) {
+			if (u % 100 == 0) {
+				vsb = VSB_new_auto();
+				AN(vsb);
+				VSB_cat(vsb, aa->silo_dirname);
+				numpart(vsb, 0, (unsigned)u);
+				AZ(VSB_finish(vsb));
+				i = stat(VSB_data(vsb), &st);
+				VSB_delete(vsb);
+				if (i && errno == ENOENT) {
+					u += 99;
+					continue;
+				}
+			}
+			vsb = Silo_Filename(aa, (unsigned)u, 0);
+			i = stat(VSB_data(vsb), &st);
+			if (!i && S_ISREG(st.st_mode))
+				retval = func(priv, VSB_data(vsb), (ssize_t)u);
+			VSB_delete(vsb);
+		}
 	}
 	return (retval);
 }
-- 
2.43.0


From a8f3c794716f8c3afed9c3c25380381899d49b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 49/87] fix: reindex and audit skipped silos for which stat
 failed

---
 main_audit.c |  3 ++-
 silo.c       | 35 +++++++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index d7dc184..607fc4e 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -435,7 +435,8 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		(void)Silo_Iter(aa, audit_silo_iter, aa);
+		if (Silo_Iter(aa, audit_silo_iter, aa))
+			printf("ERROR: Not all silos could be audited\n");
 	} else {
 		while (argc-- > 0)
 			if (audit_silo(aa, *argv++, -1))
diff --git a/silo.c b/silo.c
index 5e333c9..cb3a689 100644
--- a/silo.c
+++ b/silo.c
@@ -28,6 +28,8 @@
  */
 
 #include <errno.h>
+#include <stdio.h>
+#include <string.h>
 #include <sys/stat.h>
 
 #include "vdef.h"
@@ -82,6 +84,21 @@ Silo_Filename(const struct aardwarc *aa, unsigned number, int hold)
 	return (vsb);
 }
 
+/* Can be there or not, but anything else is an error */
+
+static int
+silo_stat(const struct vsb *vsb, struct stat *st)
+{
+
+	if (!stat(VSB_data(vsb), st))
+		return (1);
+	if (errno == ENOENT)
+		return (0);
+	fprintf(stderr, "ERROR: Cannot stat %s: %s\n",
+	    VSB_data(vsb), strerror(errno));
+	return (-1);
+}
+
 int
 Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 {
@@ -100,9 +117,11 @@ Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 		AN(vsb);
 		VSB_printf(vsb, "%s%d", aa->silo_dirname, lvl);
 		AZ(VSB_finish(vsb));
-		i = stat(VSB_data(vsb), &st);
+		i = silo_stat(vsb, &st);
 		VSB_delete(vsb);
-		if (i && errno == ENOENT)
+		if (i < 0)
+			return (i);
+		if (i == 0)
 			continue;
 		for (u = lo; u < hi && u <= UINT32_MAX && retval == 0; u++) {
 			if (u % 100 == 0) {
@@ -111,16 +130,20 @@ Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 				VSB_cat(vsb, aa->silo_dirname);
 				numpart(vsb, 0, (unsigned)u);
 				AZ(VSB_finish(vsb));
-				i = stat(VSB_data(vsb), &st);
+				i = silo_stat(vsb, &st);
 				VSB_delete(vsb);
-				if (i && errno == ENOENT) {
+				if (i < 0)
+					return (i);
+				if (i == 0) {
 					u += 99;
 					continue;
 				}
 			}
 			vsb = Silo_Filename(aa, (unsigned)u, 0);
-			i = stat(VSB_data(vsb), &st);
-			if (!i && S_ISREG(st.st_mode))
+			i = silo_stat(vsb, &st);
+			if (i < 0)
+				retval = i;
+			else if (i > 0 && S_ISREG(st.st_mode))
 				retval = func(priv, VSB_data(vsb), (ssize_t)u);
 			VSB_delete(vsb);
 		}
-- 
2.43.0


From 5ca7afd6702130c7451d85af598ff93cbdd136c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 50/87] fix: audit silently ignored silos it could not open and
 all those after them

---
 main_audit.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 607fc4e..0c627fe 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -438,9 +438,9 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		if (Silo_Iter(aa, audit_silo_iter, aa))
 			printf("ERROR: Not all silos could be audited\n");
 	} else {
-		while (argc-- > 0)
-			if (audit_silo(aa, *argv++, -1))
-				break;
+		for (; argc > 0; argc--, argv++)
+			if (audit_silo(aa, *argv, -1))
+				printf("ERROR: Cannot open silo %s\n", *argv);
 	}
 
 	err = VSB_new_auto();
-- 
2.43.0


From 171aa2eefaf5a4766feccfc7f5973c4bb62a2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 51/87] fix: audit accepted segments with garbage after the
 origin ID, which get can not deliver

---
 main_audit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_audit.c b/main_audit.c
index 0c627fe..7aba9ea 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -220,7 +220,7 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			if (strncmp(origin, oid, strlen(oid)))
 				continue;
 			origin += strlen(oid);
-			if (*origin++ != '>')
+			if (strcmp(origin, ">"))
 				continue;
 			audit_add_one_segment(aa, ap0, apn);
 			VTAILQ_REMOVE(&segment_list, apn, list);
-- 
2.43.0


From b1b516718945fd4e4f602ba68429ec15e69352b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 52/87] fix: get -z delivered a valid but incomplete object if
 a silo was truncated between segments

---
 rsilo.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsilo.c b/rsilo.c
index 0f06b93..d7da7dd 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -242,8 +242,7 @@ Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 		if (sz > rs->silo_bodylen)
 			sz = rs->silo_bodylen;
 		sz = read(rs->silo_fd, ibuf, sz);
-		if (sz <= 0)
-			return(0);
+		assert(sz > 0);
 		ll += sz;
 		j = func(priv, ibuf, sz);
 		if (j)
-- 
2.43.0


From 83ed73207ced93ee67f76ae00a41247c8d1fc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 53/87] fix: get -z delivered an incomplete object if the index
 said a segment was the last one

---
 getjob.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/getjob.c b/getjob.c
index 9ff88b2..50f661d 100644
--- a/getjob.c
+++ b/getjob.c
@@ -187,7 +187,7 @@ GetJob_New(struct aardwarc *aa, const char *id, struct vsb *vsb)
 {
 	int i;
 	struct getjob *gj;
-	struct getjobseg *gjs;
+	struct getjobseg *gjs, *gjf;
 	const char *nid, *e;
 
 	e = IDX_Valid_Id(aa, id, &nid);
@@ -228,6 +228,15 @@ GetJob_New(struct aardwarc *aa, const char *id, struct vsb *vsb)
 			break;
 		nid = gjs->idx_cont;
 	}
+
+	/* The headers must agree with the index that this is all of it */
+	gjf = VTAILQ_FIRST(&gj->segs);
+	if ((Header_Get(gjf->hdr, "WARC-Segment-Number") == NULL) !=
+	    (Header_Get(gjs->hdr, "WARC-Segment-Total-Length") == NULL)) {
+		VSB_printf(vsb, "Index Inconsistency: Missing segments.");
+		GetJob_Delete(&gj);
+		return (NULL);
+	}
 	return (gj);
 }
 
-- 
2.43.0


From 40cee5155e696d749e4fc68b556f2ded44d797f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 54/87] fix: reindex aborted or mixed up segments if an object
 was stored twice

If a segmented object was stored more than once at the same time, or again
after a crash, reindex either ran into an assert or connected segments from
different sets, which need not be split at the same places.
---
 main_reindex.c | 234 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 201 insertions(+), 33 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 2d0049e..a43042c 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -29,7 +29,6 @@
  *	Check filename in warcinfo
  *	Check if silo has correct filename based on silono (reindex2)
  *	Don't explode on corrupt silos. (reindex2)
- *	Handle duplicates (reindex2)
  */
 
 #include <stdio.h>
@@ -41,6 +40,7 @@
 
 #include "vas.h"
 #include "miniobj.h"
+#include "sha256.h"
 
 #include "aardwarc.h"
 
@@ -50,8 +50,11 @@ struct seg {
 	char			*id;
 	uint32_t		flg;
 	char			*parent;
+	char			*digest;
+	char			*fn;
 	ssize_t			silono;
 	off_t			off, segno;
+	intmax_t		len, total;
 	VTAILQ_ENTRY(seg)	list;
 	int			used;
 	int			done;
@@ -86,10 +89,106 @@ drop_seg(struct seg *seg)
 	AN(seg->done);
 	REPLACE(seg->id, NULL);
 	REPLACE(seg->parent, NULL);
+	REPLACE(seg->digest, NULL);
+	REPLACE(seg->fn, NULL);
 	FREE_OBJ(seg);
 	nsegs--;
 }
 
+/*
+ * If an object was stored more than once at the same time, or stored again
+ * after a crash, there can be several sets of segments of it, which are not
+ * necessarily split at the same places, and which must not be mixed.
+ */
+
+struct chain {
+	unsigned		magic;
+#define CHAIN_MAGIC		0x5d0c5b1e
+	struct aardwarc		*aa;
+	struct seg		**seg;		/* All segments of the object */
+	unsigned		nseg;
+	unsigned		*link;		/* The ones in this chain */
+	unsigned		nlink;
+	unsigned		steps;
+	unsigned		checks;
+};
+
+#define CHAIN_MAX_STEPS		100000
+#define CHAIN_MAX_CHECKS	16
+
+static int v_matchproto_(byte_iter_f)
+chain_digest_iter(void *priv, const void *ptr, ssize_t len)
+{
+
+	SHA256_Update(priv, ptr, len);
+	return (0);
+}
+
+static int
+chain_check(struct chain *ch)
+{
+	struct SHA256Context sha256[1];
+	char dig[SHA256_DIGEST_STRING_LENGTH];
+	struct header *hdr;
+	struct rsilo *rs;
+	struct seg *seg;
+	unsigned u;
+
+	if (ch->nlink == ch->nseg)
+		return (1);
+	seg = ch->seg[ch->link[0]];
+	if (seg->digest == NULL || ch->checks++ >= CHAIN_MAX_CHECKS)
+		return (1);
+	SHA256_Init(sha256);
+	for (u = 0; u < ch->nlink; u++) {
+		seg = ch->seg[ch->link[u]];
+		rs = Rsilo_Open(ch->aa, seg->fn, seg->silono, seg->off);
+		if (rs == NULL)
+			return (1);
+		hdr = Rsilo_ReadHeader(rs);
+		AN(hdr);
+		Header_Destroy(&hdr);
+		(void)Rsilo_ReadChunk(rs, chain_digest_iter, sha256);
+		Rsilo_Close(&rs);
+	}
+	(void)SHA256_End(sha256, dig);
+	return (!strcmp(dig, ch->seg[ch->link[0]]->digest));
+}
+
+static int
+chain_find(struct chain *ch, intmax_t len)
+{
+	struct seg *seg, *prev;
+	unsigned u, u0;
+	int pass;
+
+	CHECK_OBJ_NOTNULL(ch, CHAIN_MAGIC);
+	u0 = ch->link[ch->nlink - 1];
+	prev = ch->seg[u0];
+	len += prev->len;
+	if (prev->flg & IDX_F_LASTSEG)
+		return (len == prev->total && chain_check(ch));
+
+	/* The next segment is most likely in one of the following silos */
+	for (pass = 0; pass < 2; pass++) {
+		for (u = u0 + 1; u < ch->nseg; u++) {
+			seg = ch->seg[u];
+			if (seg->segno > prev->segno + 1)
+				break;
+			if (seg->used || seg->segno == prev->segno ||
+			    (seg->silono > prev->silono) != (pass == 0))
+				continue;
+			if (ch->steps++ >= CHAIN_MAX_STEPS)
+				return (0);
+			ch->link[ch->nlink++] = u;
+			if (chain_find(ch, len))
+				return (1);
+			ch->nlink--;
+		}
+	}
+	return (0);
+}
+
 static void
 emit_seg(const struct aardwarc *aa, struct seg *seg, struct seg *seg2)
 {
@@ -97,26 +196,97 @@ emit_seg(const struct aardwarc *aa, struct seg *seg, struct seg *seg2)
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 	CHECK_OBJ_NOTNULL(seg, SEG_MAGIC);
 	CHECK_OBJ_NOTNULL(seg2, SEG_MAGIC);
-	IDX_Insert(aa, seg->id, seg->flg, seg->silono, seg->off, seg2->id);
 	AZ(seg->done);
-	AZ(seg2->used);
+	IDX_Insert(aa, seg->id, seg->flg, seg->silono, seg->off, seg2->id);
 	seg->done++;
 	seg2->used++;
-	if (seg->used && seg->done)
-		drop_seg(seg);
-	if (seg2->used && seg2->done)
-		drop_seg(seg2);
 }
 
 static void
-try_seg(const struct aardwarc *aa, struct seg *seg)
+match_segs(struct aardwarc *aa, struct seg **segp, unsigned nseg)
 {
-	struct seg *seg2;
+	struct chain ch[1];
+	struct seg *seg, *seg2;
+	unsigned u, v;
+
+	memset(ch, 0, sizeof ch);
+	ch->magic = CHAIN_MAGIC;
+	ch->aa = aa;
+	ch->seg = segp;
+	ch->nseg = nseg;
+	ch->link = calloc(nseg, sizeof *ch->link);
+	AN(ch->link);
+
+	for (u = 0; u < nseg; u++) {
+		if (segp[u]->segno != 1 || segp[u]->done)
+			continue;
+		ch->link[0] = u;
+		ch->nlink = 1;
+		ch->steps = 0;
+		ch->checks = 0;
+		if (!chain_find(ch, 0))
+			continue;
+		for (v = 1; v < ch->nlink; v++)
+			emit_seg(aa, segp[ch->link[v - 1]], segp[ch->link[v]]);
+	}
+	free(ch->link);
+
+	/* What remains is incomplete objects. */
+	for (u = 0; u < nseg; u++) {
+		seg = segp[u];
+		for (v = 0; v < nseg && !seg->done; v++) {
+			seg2 = segp[v];
+			if (!seg2->used && seg2->segno == seg->segno + 1)
+				emit_seg(aa, seg, seg2);
+		}
+	}
+	for (u = 0; u < nseg; u++)
+		if (segp[u]->used && segp[u]->done)
+			drop_seg(segp[u]);
+}
+
+static int
+seg_cmp(const void *a, const void *b)
+{
+	const struct seg * const *s1 = a;
+	const struct seg * const *s2 = b;
+	int i;
+
+	i = strcmp((*s1)->parent, (*s2)->parent);
+	if (i)
+		return (i);
+	if ((*s1)->segno != (*s2)->segno)
+		return ((*s1)->segno < (*s2)->segno ? -1 : 1);
+	if ((*s1)->silono != (*s2)->silono)
+		return ((*s1)->silono < (*s2)->silono ? -1 : 1);
+	if ((*s1)->off != (*s2)->off)
+		return ((*s1)->off < (*s2)->off ? -1 : 1);
+	return (0);
+}
 
-	seg2 = VTAILQ_NEXT(seg, list);
-	if (seg2 != NULL && !seg2->done && seg2->segno + 1 == seg->segno &&
-	    !strncmp(seg2->parent, seg->parent, aa->id_size))
-		emit_seg(aa, seg2, seg);
+static void
+match_all_segs(struct aardwarc *aa)
+{
+	struct seg **segp, *seg;
+	unsigned u, v, n = nsegs;
+
+	if (n == 0)
+		return;
+	segp = calloc(n, sizeof *segp);
+	AN(segp);
+	u = 0;
+	VTAILQ_FOREACH(seg, &segs, list)
+		segp[u++] = seg;
+	assert(u == n);
+	qsort(segp, n, sizeof *segp, seg_cmp);
+	for (u = 0; u < n; u = v) {
+		for (v = u + 1; v < n; v++)
+			if (strcmp(segp[u]->parent, segp[v]->parent))
+				break;
+		match_segs(aa, segp + u, v - u);
+	}
+	free(segp);
+	IDX_Resort(aa);
 }
 
 static int v_matchproto_(idx_iter_f)
@@ -142,12 +312,14 @@ reindex_iter(void *priv, const char *key,
 
 static void
 got_seg(const struct aardwarc *aa, const struct header *hdr,
-   uint32_t flg, off_t off, off_t segno, ssize_t silono)
+   uint32_t flg, off_t off, off_t segno, const char *fn, ssize_t silono)
 {
 	const char *id;
 	const char *parent;
 	const char *tl;
-	struct seg *seg, *seg2;
+	const char *p;
+	char *q;
+	struct seg *seg;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 	AN(hdr);
@@ -172,10 +344,21 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 	nsegs++;
 	REPLACE(seg->id, id);
 	REPLACE(seg->parent, parent);
+	q = strchr(seg->parent, '>');
+	if (q != NULL)
+		*q = '\0';
 	seg->flg = flg;
 	seg->off = off;
 	seg->segno = segno;
 	seg->silono = silono;
+	seg->len = Header_Get_Number(hdr, "Content-Length");
+	if (tl != NULL)
+		seg->total =
+		    Header_Get_Number(hdr, "WARC-Segment-Total-Length");
+	p = Header_Get(hdr, "WARC-Payload-Digest");
+	if (p != NULL && !strncmp(p, "sha256:", 7))
+		REPLACE(seg->digest, p + 7);
+	REPLACE(seg->fn, fn);
 
 	if (segno == 1)
 		seg->used = 1;
@@ -184,23 +367,7 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 		seg->done = 1;
 	}
 
-	VTAILQ_FOREACH(seg2, &segs, list) {
-		if (strncmp(seg2->parent, seg->parent, aa->id_size) < 0)
-			continue;
-		if (strncmp(seg2->parent, seg->parent, aa->id_size) > 0)
-			break;
-		if (seg2->segno < seg->segno)
-			break;
-	}
-	if (seg2 != NULL)
-		VTAILQ_INSERT_BEFORE(seg2, seg, list);
-	else
-		VTAILQ_INSERT_TAIL(&segs, seg, list);
-
-	seg2 = VTAILQ_PREV(seg, seghead, list);
-	try_seg(aa, seg);
-	if (seg2 != NULL)
-		try_seg(aa, seg2);
+	VTAILQ_INSERT_TAIL(&segs, seg, list);
 }
 
 static int v_matchproto_(byte_iter_f)
@@ -250,7 +417,7 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 			    flg, silono, off, NULL);
 		} else {
 			segno = (off_t)im;
-			got_seg(aa, hdr, flg, off, segno, silono);
+			got_seg(aa, hdr, flg, off, segno, fn, silono);
 		}
 
 		Header_Destroy(&hdr);
@@ -298,6 +465,7 @@ main_reindex(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		retval |= Silo_Iter(aa, silo_iter, aa);
 	while (argc-- > 0)
 		retval |= silo_iter(aa, *argv++, -1);
+	match_all_segs(aa);
 	if (nsegs > 0) {
 		printf("Rematch (%u)\n", nsegs);
 		(void)IDX_Iter(aa, NULL, reindex_iter, aa);
-- 
2.43.0


From a8b045d301ca93887155f3c04c87e4026a20c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 55/87] fix: reindex aborted or indexed half a record after a
 crash during an append

A crash in the middle of appending to a silo leaves an incomplete record at
the end of it.  Reindex then either ran into an assert, or inserted an entry
for the half record, so that the object could never be stored again.  Audit
could not get past it either.
---
 aardwarc.h     |  1 +
 main_audit.c   |  6 +++++
 main_reindex.c | 15 +++++++++++--
 rsilo.c        | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 81 insertions(+), 2 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 64ac932..d1396e0 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -204,6 +204,7 @@ int Silo_Iter(const struct aardwarc *, byte_iter_f *func, void *priv);
 struct rsilo *Rsilo_Open(struct aardwarc *, const char *fn, uint32_t nsilo,
     int64_t off);
 void Rsilo_Close(struct rsilo **);
+int Rsilo_Complete(const struct rsilo *);
 void Rsilo_NextHeader(struct rsilo *);
 struct header *Rsilo_ReadHeader(struct rsilo *);
 uintmax_t Rsilo_ReadChunk(struct rsilo *, byte_iter_f *, void *);
diff --git a/main_audit.c b/main_audit.c
index 7aba9ea..391235c 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -330,6 +330,12 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 
 	while (1) {
 		fflush(stdout);
+		if (Rsilo_Complete(rs) < 0) {
+			printf("ERROR: Incomplete record at %jd\n",
+			    (intmax_t)Rsilo_Tell(rs));
+			tbad++;
+			break;
+		}
 		ALLOC_OBJ(ap, AUDIT_MAGIC);
 		AN(ap);
 		ap->silo_fn = fn;
diff --git a/main_reindex.c b/main_reindex.c
index a43042c..9bb19e9 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -62,6 +62,7 @@ struct seg {
 
 static VTAILQ_HEAD(seghead,seg)	segs = VTAILQ_HEAD_INITIALIZER(segs);
 static unsigned			nsegs = 0;
+static int			incomplete = 0;
 
 static void
 dump(const struct aardwarc *aa, const char *pfx, struct seg *seg)
@@ -379,6 +380,7 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 	off_t off, segno;
 	intmax_t im;
 	uint32_t flg;
+	int i;
 	const char *p, *wt;
 
 	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
@@ -396,9 +398,16 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 
 	while (1) {
 		off = Rsilo_Tell(rs);
-		hdr = Rsilo_ReadHeader(rs);
-		if (hdr == NULL)
+		i = Rsilo_Complete(rs);
+		if (i < 0) {
+			fprintf(stderr, "Silo %zd: Incomplete record at %jd\n",
+			    silono, (intmax_t)off);
+			incomplete = 1;
+		}
+		if (i <= 0)
 			break;
+		hdr = Rsilo_ReadHeader(rs);
+		AN(hdr);
 
 		flg = 0;
 		wt = Header_Get(hdr, "WARC-Type");
@@ -474,5 +483,7 @@ main_reindex(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		printf("Leftovers\n");
 		dump_left(aa);
 	}
+	if (incomplete)
+		retval = 1;
 	return (retval);
 }
diff --git a/rsilo.c b/rsilo.c
index d7da7dd..5848619 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -31,6 +31,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
+#include <sys/stat.h>
 
 #define ZLIB_CONST
 #include <zlib.h>
@@ -156,6 +157,66 @@ Rsilo_Tell(const struct rsilo *rs)
 }
 
 
+/* Is there a complete record here ? ----------------------------------
+ *
+ * A crash in the middle of appending to a silo can leave a record at the
+ * end, which is not all there.
+ *
+ * Return: 1 - Yes, 0 - End of silo, -1 - No
+ */
+
+int
+Rsilo_Complete(const struct rsilo *rs)
+{
+	z_stream	zs[1];
+	struct stat	st;
+	int		ps = getpagesize();
+	char		ibuf[ps];
+	char		obuf[ps];
+	uint8_t		crnl[sizeof Gzip_crnlcrnl];
+	off_t		o;
+	int64_t		len;
+	ssize_t		sz;
+	int		i;
+
+	CHECK_OBJ_NOTNULL(rs, RSILO_MAGIC);
+	assert(rs->silo_where == RS_HEAD);
+
+	o = Rsilo_Tell(rs);
+	if (fstat(rs->silo_fd, &st))
+		return (-1);
+	if (o == st.st_size)
+		return (0);
+
+	sz = pread(rs->silo_fd, ibuf, ps, o);
+	if (sz <= 0)
+		return (-1);
+
+	memset(zs, 0, sizeof zs);
+	zs->next_in = (void*)ibuf;
+	zs->avail_in = sz;
+	zs->next_out = (void*)obuf;
+	zs->avail_out = sizeof obuf;
+	i = inflateInit2(zs, 15 + 32);
+	assert(i == Z_OK);
+	i = inflate(zs, 0);
+	AZ(inflateEnd(zs));
+	if (i != Z_STREAM_END)
+		return (-1);
+
+	o += sz - zs->avail_in;
+	if (zs->avail_in < sizeof crnl)
+		return (-1);
+	len = Gzip_ReadAa(zs->next_in, zs->avail_in);
+	if (len > st.st_size - o - (off_t)sizeof crnl)
+		return (-1);
+	sz = pread(rs->silo_fd, crnl, sizeof crnl, o + len);
+	if (sz != (ssize_t)sizeof crnl ||
+	    memcmp(crnl, Gzip_crnlcrnl, sizeof crnl))
+		return (-1);
+	return (1);
+}
+
 /* Read a WARC header -------------------------------------------------*/
 
 struct header *
-- 
2.43.0


From 7aa0e6509a54a7f7a20337249d06c05ef12227bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 56/87] fix: a crash during housekeeping prevented all further
 housekeeping

The hold file was left behind, and all later runs of housekeeping and reindex
did nothing, because it existed.
---
 index.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/index.c b/index.c
index 8f8ef51..5aabb80 100644
--- a/index.c
+++ b/index.c
@@ -661,17 +661,33 @@ IDX_Resort(const struct aardwarc *aa)
 
 	struct vsb *vsba, *vsbh, *vsb4;
 	uint8_t	*spc;
+	struct stat st, st2;
 	int fdh;
 
 	vsb4 = idx_filename(aa, SUFF_HOLD);
 
-	fdh = open(VSB_data(vsb4), O_RDWR | O_CREAT | O_EXCL, 0640);
-	if (fdh < 0 && errno == EEXIST) {
-		fprintf(stderr,
-		    "Housekeeping 'hold' already file exists (%s)\n",
-		    VSB_data(vsb4));
-		VSB_delete(vsb4);
-		return;
+	/*
+	 * The lock tells if the hold is in use, or was merely left behind
+	 * by a crash.
+	 */
+	while (1) {
+		fdh = open(VSB_data(vsb4), O_RDWR | O_CREAT, 0640);
+		if (fdh < 0)
+			break;
+		if (flock(fdh, LOCK_EX | LOCK_NB)) {
+			assert(errno == EWOULDBLOCK);
+			fprintf(stderr,
+			    "Housekeeping 'hold' already file exists (%s)\n",
+			    VSB_data(vsb4));
+			AZ(close(fdh));
+			VSB_delete(vsb4);
+			return;
+		}
+		AZ(fstat(fdh, &st));
+		if (!stat(VSB_data(vsb4), &st2) &&
+		    st.st_dev == st2.st_dev && st.st_ino == st2.st_ino)
+			break;
+		AZ(close(fdh));
 	}
 
 	spc = malloc(aa->index_sort_size);
-- 
2.43.0


From 9752a2d42ba611df4b7e2ec8ad6d16eb2d73cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 57/87] fix: housekeeping reported success when it could not do
 its job

---
 aardwarc.h          |  2 +-
 index.c             | 28 +++++++++++++++++++++-------
 main_housekeeping.c |  4 +---
 main_reindex.c      | 11 +++++------
 4 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index d1396e0..20249bc 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -152,7 +152,7 @@ typedef int idx_iter_f(void *priv, const char *key,
 int IDX_Iter(const struct aardwarc *aa, const char *key_part,
     idx_iter_f *func, void *priv);
 
-void IDX_Resort(const struct aardwarc *aa);
+int IDX_Resort(const struct aardwarc *aa);
 
 const char *IDX_Valid_Id(const struct aardwarc *,
     const char *id, const char **nid);
diff --git a/index.c b/index.c
index 5aabb80..3133e36 100644
--- a/index.c
+++ b/index.c
@@ -655,14 +655,19 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 	return (retval);
 }
 
-void
+/*
+ * Return non-zero if the index could not be sorted, but not if somebody
+ * else is already doing so.
+ */
+
+int
 IDX_Resort(const struct aardwarc *aa)
 {
 
 	struct vsb *vsba, *vsbh, *vsb4;
 	uint8_t	*spc;
 	struct stat st, st2;
-	int fdh;
+	int fdh, retval;
 
 	vsb4 = idx_filename(aa, SUFF_HOLD);
 
@@ -672,8 +677,13 @@ IDX_Resort(const struct aardwarc *aa)
 	 */
 	while (1) {
 		fdh = open(VSB_data(vsb4), O_RDWR | O_CREAT, 0640);
-		if (fdh < 0)
-			break;
+		if (fdh < 0) {
+			fprintf(stderr,
+			    "Error opening housekeeping 'hold' (%s): %s\n",
+			    VSB_data(vsb4), strerror(errno));
+			VSB_delete(vsb4);
+			return (-1);
+		}
 		if (flock(fdh, LOCK_EX | LOCK_NB)) {
 			assert(errno == EWOULDBLOCK);
 			fprintf(stderr,
@@ -681,7 +691,7 @@ IDX_Resort(const struct aardwarc *aa)
 			    VSB_data(vsb4));
 			AZ(close(fdh));
 			VSB_delete(vsb4);
-			return;
+			return (0);
 		}
 		AZ(fstat(fdh, &st));
 		if (!stat(VSB_data(vsb4), &st2) &&
@@ -695,12 +705,14 @@ IDX_Resort(const struct aardwarc *aa)
 		fprintf(stderr,
 		    "Could not allocate index.sort_size %ju bytes\n",
 		    (uintmax_t)aa->index_sort_size);
+		retval = -1;
 	} else {
 		vsba = idx_filename(aa, SUFF_APPENDIX);
 		vsbh = idx_filename(aa, SUFF_HOUSEKEEP);
 
-		while(idx_attempt_merge(aa, spc, vsba, vsbh) > 0)
-			continue;
+		do
+			retval = idx_attempt_merge(aa, spc, vsba, vsbh);
+		while (retval > 0);
 
 		VSB_delete(vsba);
 		VSB_delete(vsbh);
@@ -708,4 +720,6 @@ IDX_Resort(const struct aardwarc *aa)
 	}
 	AZ(unlink(VSB_data(vsb4)));
 	AZ(close(fdh));
+	VSB_delete(vsb4);
+	return (retval);
 }
diff --git a/main_housekeeping.c b/main_housekeeping.c
index bf63902..0baafe0 100644
--- a/main_housekeeping.c
+++ b/main_housekeeping.c
@@ -72,7 +72,5 @@ main_housekeeping(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	AZ(argc);
 	AZ(*argv);
 
-	IDX_Resort(aa);
-
-	return (0);
+	return (IDX_Resort(aa) ? 1 : 0);
 }
diff --git a/main_reindex.c b/main_reindex.c
index 9bb19e9..42085a3 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -265,14 +265,14 @@ seg_cmp(const void *a, const void *b)
 	return (0);
 }
 
-static void
+static int
 match_all_segs(struct aardwarc *aa)
 {
 	struct seg **segp, *seg;
 	unsigned u, v, n = nsegs;
 
 	if (n == 0)
-		return;
+		return (0);
 	segp = calloc(n, sizeof *segp);
 	AN(segp);
 	u = 0;
@@ -287,7 +287,7 @@ match_all_segs(struct aardwarc *aa)
 		match_segs(aa, segp + u, v - u);
 	}
 	free(segp);
-	IDX_Resort(aa);
+	return (IDX_Resort(aa));
 }
 
 static int v_matchproto_(idx_iter_f)
@@ -433,8 +433,7 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 		Rsilo_NextHeader(rs);
 	}
 	Rsilo_Close(&rs);
-	IDX_Resort(aa);
-	return (0);
+	return (IDX_Resort(aa));
 }
 
 static void
@@ -474,7 +473,7 @@ main_reindex(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		retval |= Silo_Iter(aa, silo_iter, aa);
 	while (argc-- > 0)
 		retval |= silo_iter(aa, *argv++, -1);
-	match_all_segs(aa);
+	retval |= match_all_segs(aa);
 	if (nsegs > 0) {
 		printf("Rematch (%u)\n", nsegs);
 		(void)IDX_Iter(aa, NULL, reindex_iter, aa);
-- 
2.43.0


From cd2a7f184e785d812b9395f29e6b6f41d09df5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 58/87] fix: housekeeping ignored the snapshot of an
 interrupted run until something new was stored

---
 index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index 3133e36..de712e3 100644
--- a/index.c
+++ b/index.c
@@ -608,10 +608,10 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 	i = link(VSB_data(vsba), VSB_data(vsbh));
 	if (i == 0) {
 		AZ(unlink(VSB_data(vsba)));
-	} else if (errno == ENOENT) {
+	} else if (errno == ENOENT && access(VSB_data(vsbh), F_OK)) {
 		fprintf(stderr, "No appendix to housekeep\n");
 		return (0);
-	} else if (errno == EEXIST) {
+	} else if (errno == EEXIST || errno == ENOENT) {
 		fprintf(stderr,
 		    "Found existing housekeeping snapshot\n");
 		fprintf(stderr,
-- 
2.43.0


From d4cd5328a2d8bec93a8905fb8c8b76645c8eb08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 59/87] fix: reindex inserted last segments of incomplete
 objects twice

A crash while storing a segmented object can leave a last segment without
the others behind.
---
 main_reindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_reindex.c b/main_reindex.c
index 42085a3..527a02c 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -301,7 +301,7 @@ reindex_iter(void *priv, const char *key,
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
-		if (!strncmp(key, seg->id, 16)) {
+		if (!seg->done && !strncmp(key, seg->id, 16)) {
 			IDX_Insert(priv, seg->id, seg->flg, seg->silono,
 			    seg->off, cont);
 			seg->done++;
-- 
2.43.0


From 4e4b3837aa89ca50ff36439a30d760309c1e7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 60/87] fix: persistent errors from stat could make index
 insertion loop forever

---
 index.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/index.c b/index.c
index de712e3..2f1a83f 100644
--- a/index.c
+++ b/index.c
@@ -249,7 +249,9 @@ uint32_t silo, uint64_t offset, const char *cont)
 		AZ(flock(fd, LOCK_EX));
 		/* Housekeeping may have taken it before we got the lock */
 		AZ(fstat(fd, &st));
-		if (!stat(VSB_data(vsb), &st2) &&
+		i = stat(VSB_data(vsb), &st2);
+		assert(i == 0 || errno == ENOENT);
+		if (i == 0 &&
 		    st.st_dev == st2.st_dev && st.st_ino == st2.st_ino)
 			break;
 		AZ(close(fd));
@@ -667,7 +669,7 @@ IDX_Resort(const struct aardwarc *aa)
 	struct vsb *vsba, *vsbh, *vsb4;
 	uint8_t	*spc;
 	struct stat st, st2;
-	int fdh, retval;
+	int fdh, i, retval;
 
 	vsb4 = idx_filename(aa, SUFF_HOLD);
 
@@ -694,7 +696,9 @@ IDX_Resort(const struct aardwarc *aa)
 			return (0);
 		}
 		AZ(fstat(fdh, &st));
-		if (!stat(VSB_data(vsb4), &st2) &&
+		i = stat(VSB_data(vsb4), &st2);
+		assert(i == 0 || errno == ENOENT);
+		if (i == 0 &&
 		    st.st_dev == st2.st_dev && st.st_ino == st2.st_ino)
 			break;
 		AZ(close(fdh));
-- 
2.43.0


From 83fb0293d705318a364eace223b16e1015cc88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 61/87] fix: stow wrote invalid JSON if the name of the job
 contains quotes or backslashes

---
 main_stow.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 6611b19..648748b 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -356,6 +356,20 @@ metafile(const struct stow_job *sj, int fd, struct vsb *vsb, FILE *f)
 	} while (sz > 0);
 }
 
+static void
+json_quote(struct vsb *vsb, const char *s)
+{
+
+	for (; *s != '\0'; s++) {
+		if (*s == '"' || *s == '\\')
+			VSB_printf(vsb, "\\%c", *s);
+		else if ((uint8_t)*s < 0x20)
+			VSB_printf(vsb, "\\u%04x", (uint8_t)*s);
+		else
+			VSB_putc(vsb, *s);
+	}
+}
+
 static void
 send_metadata(struct stow_job *sj, int fd)
 {
@@ -387,7 +401,9 @@ send_metadata(struct stow_job *sj, int fd)
 	AZ(fclose(sj->missing));
 
 	VSB_printf(vsb, "\t\"mtree\": \"sha256:%s\",\n", sj->meta->digest);
-	VSB_printf(vsb, "\t\"target\": \"%s\",\n", sj->job);
+	VSB_cat(vsb, "\t\"target\": \"");
+	json_quote(vsb, sj->job);
+	VSB_cat(vsb, "\",\n");
 	(void)time(&t);
 	VSB_printf(vsb, "\t\"time\": %jd\n", (intmax_t)t);
 	VSB_printf(vsb, "    }\n]\n");
-- 
2.43.0


From dbb3674b12ddb7f251d982d6170feda75c78129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 62/87] fix: stow took a long line from mtree for the end of
 the list

and silently left the remaining files out
---
 main_stow.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 648748b..5d2fa03 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -99,7 +99,8 @@ struct stow_job {
 
 	pid_t			mtree_pid;
 	FILE *			mtree_tmp;
-	char			mtree_buf[8192];
+	/* A line holds vis(3) encoded names and symlink targets */
+	char			mtree_buf[64 * 1024];
 	uintptr_t		mtree_ev;
 	SHA256_CTX		mtree_sha;
 
@@ -236,6 +237,8 @@ mtree_in(int fd, void *priv, int revents)
 
 	p = strchr(sj->mtree_buf, '\0');
 	AN(p);
+	/* A full buffer would look like the end of file */
+	assert(p < sj->mtree_buf + sizeof sj->mtree_buf - 1);
 	i = read(fd, p, (sj->mtree_buf + sizeof sj->mtree_buf - 1) - p);
 	assert(i >= 0);
 	if (i > 0) {
-- 
2.43.0


From a09b4c75a2f6611fb2621e221d8990ae5e60cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 63/87] fix: stow ignored the file after a symlink which points
 to something ending in a backslash

---
 main_stow.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 5d2fa03..23994bd 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -200,16 +200,19 @@ mtree_interpret(char *line)
 static void
 mtree_process(struct stow_job *sj)
 {
-	char *p, *b;
+	char *p, *b, *q;
 
 	b = sj->mtree_buf;
 	while (1) {
 		p = strchr(b, '\n');
 		if (p == NULL)
 			break;
+		for (q = p; q > b && q[-1] == '\\'; q--)
+			continue;
 		if (p == b)
 			b++;
-		else if (p[-1] == '\\') {
+		else if ((p - q) & 1) {
+			/* Two backslashes are one encoded by vis(3) */
 			p[-1] = ' ';
 			p[0] = ' ';
 		} else {
-- 
2.43.0


From 55921b16e7f81f0181f83bab15912d0051fe1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 64/87] fix: stow looked for files in the wrong directory after
 one with byte 0xaf in its name

---
 main_stow.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 23994bd..6420877 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -124,7 +124,7 @@ static void
 mtree_interpret(char *line)
 {
 	char *word, *w0;
-	char *p, *digest;
+	char *digest;
 	int dir = mtree_type_dir;
 	struct dir *dp = NULL;
 	struct subj *cp;
@@ -142,12 +142,11 @@ mtree_interpret(char *line)
 				mtree_type_dir = 0;
 		}
 	} else if (!strcmp(word, "..")) {
-		p = strrchr(mtree_path, '/');
-		if (p == NULL)
-			p = mtree_path;
-		*p = '\0';
+		/* vis(3) encodes 0xaf as "\M-/" */
 		AN(pwd);
 		pwd = pwd->parent;
+		bprintf(mtree_path, "%s%s", pwd == NULL ? "" : "/",
+		    pwd == NULL ? "" : pwd->dirname);
 	} else {
 		w0 = word;
 		digest = NULL;
-- 
2.43.0


From 752cbf95edb3178ad02e4bcfe5986b7826091adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 65/87] fix: stevedore aborted or mixed up replies if metadata
 was stored while an object was

---
 main_stevedore.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index f93539a..58bdc2a 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -276,10 +276,8 @@ meta_line(void *priv, const char *line)
 	struct job *jp;
 
 	CAST_OBJ_NOTNULL(jp, priv, JOB_MAGIC);
+	/* Only objects disable stdin, leave that to them */
 	proto_out(1, PROTO_META, line, strlen(line));
-	/* stdin can be gone already, we do not disable it for metadata */
-	if (stdin_ev)
-		proto_ctl_ev(stdin_ev, 1);
 	return (0);
 }
 
-- 
2.43.0


From 4af1b23c929990f004cbebc747a38bc6ff1a7103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 66/87] fix: stevedore hung if its client left in the middle of
 an ID and of an object

---
 main_stevedore.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 58bdc2a..2bc728f 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -307,6 +307,17 @@ start_meta(char *ref)
 
 /**********************************************************************/
 
+static void
+lost_client(void)
+{
+
+	proto_del_ev(&stdin_ev);
+	if (store_job != NULL || meta_job != NULL) {
+		/* They will wait forever for the rest of it */
+		exit(3);
+	}
+}
+
 static void v_matchproto_(proto_ev_func_f)
 input(int fd, void *priv, int revents)
 {
@@ -319,11 +330,7 @@ input(int fd, void *priv, int revents)
 	(void)revents;
 	i = proto_in(fd, &cmd, &size);
 	if (i == 0) {
-		proto_del_ev(&stdin_ev);
-		if (store_job != NULL || meta_job != NULL) {
-			/* They will wait forever for the rest of it */
-			exit(3);
-		}
+		lost_client();
 		return;
 	}
 	if (i != 1)
@@ -341,8 +348,8 @@ input(int fd, void *priv, int revents)
 			while (size > j) {
 				i = read(0, fp->id + j, size - j);
 				if (i <= 0) {
-					proto_del_ev(&stdin_ev);
 					FREE_OBJ(fp);
+					lost_client();
 					return;
 				}
 				j += i;
@@ -391,7 +398,7 @@ input(int fd, void *priv, int revents)
 			while (size > j) {
 				i = read(0, buf + j, size - j);
 				if (i <= 0) {
-					proto_del_ev(&stdin_ev);
+					lost_client();
 					return;
 				}
 				j += i;
-- 
2.43.0


From 90802125403b9d4805ee19577d01e9ee9039e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 67/87] fix: stevedore deadlocked if metadata arrived in the
 middle of an object

---
 main_stevedore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main_stevedore.c b/main_stevedore.c
index 2bc728f..a4f79d7 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -128,6 +128,11 @@ job_start(vlu_f *line, job_func *eof, ...)
 		} while (p != NULL);
 		va_end(ap);
 
+		/* Or the other jobs will not see the end of their input */
+		if (store_job != NULL)
+			AZ(close(store_job->fd_to));
+		if (meta_job != NULL)
+			AZ(close(meta_job->fd_to));
 		AZ(close(fdi[1]));
 		assert(0 == dup2(fdi[0], 0));
 		AZ(close(fdo[0]));
-- 
2.43.0


From ce1cd357daf6c59c2fec9d52f48e26030e5b9477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 68/87] fix: mksilo created another silo for an illegal silo
 number

---
 main_mksilo.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/main_mksilo.c b/main_mksilo.c
index 30bddeb..8284500 100644
--- a/main_mksilo.c
+++ b/main_mksilo.c
@@ -27,7 +27,10 @@
  *
  */
 
+#include <ctype.h>
+#include <errno.h>
 #include <fcntl.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -53,7 +56,8 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
 	int ch, retval = 0;
 	const char *a00 = *argv;
-	unsigned u;
+	unsigned long u;
+	char *p;
 	struct wsilo *ws;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
@@ -77,7 +81,13 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		usage_mksilo(a0, a00, "No silo#.");
 		exit(1);
 	}
-	u = strtoul(argv[0], NULL, 0);
+	errno = 0;
+	u = strtoul(argv[0], &p, 0);
+	if (!isdigit((unsigned char)argv[0][0]) || *p != '\0' ||
+	    errno != 0 || u > UINT32_MAX) {
+		usage_mksilo(a0, a00, "Illegal silo#.");
+		exit(1);
+	}
 	ws = Wsilo_New(aa, u);
 	if (ws == NULL) {
 		usage_mksilo(a0, a00, "Could not.");
-- 
2.43.0


From 471f089d145dfda3b3b501ab9dec2c451ce873eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 69/87] fix: illegal ID widths like 128x or 4294967424 were
 accepted

---
 aardwarc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aardwarc.c b/aardwarc.c
index fadac63..a9c4f43 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -50,6 +50,8 @@ AardWARC_New(const char *config_file, struct vsb *err)
 	struct aardwarc *aa;
 	char buf1[BUFSIZ], buf2[BUFSIZ];
 	const char *p, *p2;
+	char *q;
+	unsigned long ul;
 	uintmax_t um;
 
 	ALLOC_OBJ(aa, AARDWARC_MAGIC);
@@ -75,13 +77,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 		if (p != NULL) {
-			aa->id_size = strtoul(p, NULL, 0);
-			if (aa->id_size < 64 || aa->id_size > 256) {
+			ul = strtoul(p, &q, 0);
+			if (*p == '-' || *q != '\0' || ul < 64 || ul > 256) {
 				VSB_printf(err,
 				    "Illegal 'WARC-Record-ID' length %s.\n",
 				    "\tMust be [64...256] bits");
 				break;
 			}
+			aa->id_size = ul;
 			if (aa->id_size & 3) {
 				VSB_printf(err,
 				    "Illegal 'WARC-Record-ID' length %s.\n",
-- 
2.43.0


From f609b4e4647695d852d8d9e4d790504a1e04f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 70/87] fix: duplicate sections in different case were not
 detected

---
 config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.c b/config.c
index f8f988e..bbc11a2 100644
--- a/config.c
+++ b/config.c
@@ -106,7 +106,7 @@ config_parse(struct config *cfg)
 				return ("Section colon trouble");
 			*r = '\0';
 			VTAILQ_FOREACH(sc, &cfg->sections, list)
-				if (!strcmp(sc->name, p))
+				if (!strcasecmp(sc->name, p))
 					return ("Duplicate sections");
 			ALLOC_OBJ(sc, SECTION_MAGIC);
 			AN(sc);
-- 
2.43.0


From c8e91d9de1cd618bf14e54ae52045285e61c5090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 71/87] fix: a header filling almost a page was read out of
 bounds

The size check in Gzip_ReadAa() had one sizeof too many.
---
 gzip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gzip.c b/gzip.c
index ea632e9..5e34cb4 100644
--- a/gzip.c
+++ b/gzip.c
@@ -130,7 +130,7 @@ Gzip_ReadAa(const void *p, size_t l)
 	int64_t len;
 
 	assert(Gzip_GoodAa(p, l));
-	xxxassert(l >= sizeof sizeof gzip_head + 8);
+	assert(l >= sizeof gzip_head + 8);
 	len = (int64_t)le64dec((const uint8_t*)p + sizeof gzip_head);
 	assert(len > 0);
 	return (len);
-- 
2.43.0


From 3c0c15278307e0d12260bcd0491830b7268ab2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 72/87] fix: stitching gzip members with bogus lengths read and
 wrote out of bounds

---
 gzip.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gzip.c b/gzip.c
index 5e34cb4..91aad41 100644
--- a/gzip.c
+++ b/gzip.c
@@ -295,6 +295,8 @@ gzip_stitch_feed(void *priv, const void *ptr, ssize_t len)
 			p += 24;
 			len -= 24;
 			gs->gzlen -= 24;
+			/* We need room for the stop bit and the trailer */
+			assert(gs->gzlen >= 13);
 			continue;
 		}
 		if (gs->state == GZSTATE_INSIDE) {
@@ -315,6 +317,7 @@ gzip_stitch_feed(void *priv, const void *ptr, ssize_t len)
 		}
 		if (gs->state == GZSTATE_TAIL) {
 			/* Strip from last stop-bit and accumulate CRC */
+			assert(len <= gs->gzlen);
 			memcpy(gs->tailbuf + 13 - gs->gzlen, p, len);
 			p += len;
 			gs->gzlen -= len;
-- 
2.43.0


From 3167834a620a37f1fd1a70c3323d0bc19cbf70fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:45 +0000
Subject: [PATCH 73/87] fix: a corrupt header of index.sorted caused undefined
 shifts

---
 index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index.c b/index.c
index 2f1a83f..f475016 100644
--- a/index.c
+++ b/index.c
@@ -269,6 +269,8 @@ uint32_t silo, uint64_t offset, const char *cont)
 /**********************************************************************/
 
 #define INDEX_ID	0x4161L
+/* One bucket per 4k records, and 40 bits of records */
+#define BUCKET_MAXBITS	28
 
 struct bucket {
 	unsigned		magic;
@@ -292,6 +294,7 @@ bucket_skip(FILE *f)
 	id = be64dec(buf);
 	assert((id >> 48) == INDEX_ID);
 	bb = (id >> 40) & 0xff;
+	assert(bb > 0 && bb <= BUCKET_MAXBITS);
 	AZ(fseeko(f, 1L << (bb + 3), SEEK_SET));
 }
 
@@ -385,6 +388,7 @@ bucket_seek(const void *rec, FILE *f)
 	id = be64dec(buf);
 	assert((id >> 48) == INDEX_ID);
 	nbucket = (id >> 40) & 0xff;
+	assert(nbucket > 0 && nbucket <= BUCKET_MAXBITS);
 	nrec = id & 0xffffffffff;
 
 	frac = be64dec(rec);
-- 
2.43.0


From 1b4a1ebdddd7bf53b1a5d2cc2ee1070c09cc03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 74/87] fix: huge numbers in silo headers overflowed

---
 header.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/header.c b/header.c
index e7f84d3..e15d593 100644
--- a/header.c
+++ b/header.c
@@ -230,6 +230,8 @@ Header_Get_Number(const struct header *hd, const char *name)
 	for (; *p != '\0'; p++) {
 		if (*p < '0' || *p > '9')
 			return (-1);
+		if (r > (INTMAX_MAX - 9) / 10)
+			return (-1);
 		r *= 10;
 		r += *p - '0';
 	}
-- 
2.43.0


From 0da894ccdc4d9821b99a47020c6250311eb88270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 75/87] fix: short digests and origin IDs in headers were read
 out of bounds

---
 getjob.c     | 4 ++--
 main_audit.c | 4 ++--
 main_get.c   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/getjob.c b/getjob.c
index 50f661d..a347069 100644
--- a/getjob.c
+++ b/getjob.c
@@ -117,10 +117,10 @@ getjob_iter(void *priv, const char *key,
 		}
 		assert(p[0] == '<');
 		p++;
-		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
+		assert(!strncmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
 		p += strlen(gj->aa->prefix);
+		assert(strlen(p) == gj->aa->id_size + 1);
 		assert(p[gj->aa->id_size] == '>');
-		assert(p[gj->aa->id_size + 1L] == '\0');
 		if (strncasecmp(p, gj->id, gj->aa->id_size)) {
 			/*
 			 * The next field in the index can be ambiguous
diff --git a/main_audit.c b/main_audit.c
index 391235c..2b17f68 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -91,7 +91,7 @@ audit_check_digest_header(struct vsb *err, const struct audit *ap,
 	is = Header_Get(ap->hdr, hdn);
 	if (is == NULL) {
 		VSB_printf(err, "ERROR: %s missing\n", hdn);
-	} else if (memcmp(is, "sha256:", 7)) {
+	} else if (strncmp(is, "sha256:", 7)) {
 		VSB_printf(err, "ERROR: %s is not sha256\n", hdn);
 	} else if (strcmp(is + 7, expect)) {
 		VSB_printf(err, "ERROR: %s difference\n", hdn);
@@ -214,7 +214,7 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 				continue;
 			if (*origin++ != '<')
 				continue;
-			if (memcmp(aa->prefix, origin, strlen(aa->prefix)))
+			if (strncmp(aa->prefix, origin, strlen(aa->prefix)))
 				continue;
 			origin += strlen(aa->prefix);
 			if (strncmp(origin, oid, strlen(oid)))
diff --git a/main_get.c b/main_get.c
index 725a94f..4040481 100644
--- a/main_get.c
+++ b/main_get.c
@@ -178,7 +178,7 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			if (p == NULL)
 				p = Header_Get(hdr1, "WARC-Block-Digest");
 			AN(p);
-			assert(!memcmp(p, "sha256:", 7));
+			assert(!strncmp(p, "sha256:", 7));
 			p += 7;
 			assert(!strncmp(p, dig, aa->id_size));
 
-- 
2.43.0


From 25a29514d5c71361391805cfa66240bf5ecd56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 76/87] fix: stow compared replies past the end of its end
 marker

---
 main_stow.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 6420877..1f6aedb 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -463,10 +463,11 @@ filter_resp(struct stow_job *sj, uint8_t *p, size_t len)
 			printf("IDSIZE %zu (%zu)\n", len, sj->id_size);
 		sj->id_size = len;
 		p[len] = '\0';
+		assert(strlen((char*)p) == len);
 		while (1) {
 			cp = VTAILQ_FIRST(&wait_list);
 			CHECK_OBJ_NOTNULL(cp, SUBJ_MAGIC);
-			if (!memcmp(cp->digest, p, len)) {
+			if (!strncmp(cp->digest, (char*)p, len)) {
 				if (cp->directory == NULL)
 					printf("get\t${MTREE}\n");
 				else
-- 
2.43.0


From fef059ab95b7922dcaf222f64774bb6dadac3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 77/87] fix: rebuild read out of bounds if a record had no
 usable Content-Length

---
 main_rebuild.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_rebuild.c b/main_rebuild.c
index 01a9294..d70f2a7 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -97,6 +97,7 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			rb->h = Header_Parse(rb->aa, rb->hdrbuf);
 			AN(rb->h);
 			rb->clen = Header_Get_Number(rb->h, "Content-Length");
+			assert(rb->clen >= 0);
 
 			Header_Delete(rb->h, "Content-Length-GZIP");
 			Header_Delete(rb->h, "z");
-- 
2.43.0


From c3d831b675599952a246d9f4be08b28e01a25e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 78/87] fix: a missing relative silo.directory caused infinite
 recursion

---
 wsilo.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 8bcef40..85a8f2c 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -89,10 +89,11 @@ silo_mkparentdir(const char *path)
 	p = strdup(path);
 	AN(p);
 	q = strrchr(p, '/');
-	if (q == p)
+	if (q == NULL || q == p) {
+		free(p);
 		return (0);
-	if (q != NULL)
-		*q = '\0';
+	}
+	*q = '\0';
 	i = stat(p, &st);
 	if (i < 0 && errno == ENOENT) {
 		i = silo_mkparentdir(p);
-- 
2.43.0


From a7e35de7aa8624c620fcfba76b715f041bf65ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 79/87] fix: select_silos.py failed if a silo it had staged
 earlier is gone

---
 utilities/select_silos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utilities/select_silos.py b/utilities/select_silos.py
index af1494d..a3a0227 100644
--- a/utilities/select_silos.py
+++ b/utilities/select_silos.py
@@ -239,6 +239,7 @@ class Silo():
     def __init__(self, fn):
         SILOS[fn] = self
         self.fn = fn
+        self.fpn = None
         self.now_sz = 0
         self.last_sz = 0
         self.last_tm = 0
@@ -290,6 +291,9 @@ def main(sdir):
 
     q = 0
     for s in sorted(list(SILOS.values())):
+        if not s.fpn:
+            # No longer there
+            continue
         if q + s.now_sz > QUOTA:
             break
         q += s.now_sz
-- 
2.43.0


From 009a7cacbbfe9bc21dc3a505f5243ec096120a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 80/87] fix: get -z gave a wrong CRC if a later segment held 4
 GiB or more

---
 aardwarc.h |  1 +
 getjob.c   |  5 ++++-
 gzip.c     | 18 +++++++++++++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 20249bc..4201a4b 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -110,6 +110,7 @@ void Gzip_WriteAa(int, int64_t);
 
 struct gzip_stitch;
 struct gzip_stitch * gzip_stitch_new(byte_iter_f *func, void *priv);
+void gzip_stitch_seglen(struct gzip_stitch *, off_t len);
 int gzip_stitch_feed(void *priv, const void *ptr, ssize_t len);
 int gzip_stitch_fini(struct gzip_stitch *gs);
 
diff --git a/getjob.c b/getjob.c
index a347069..1e3c550 100644
--- a/getjob.c
+++ b/getjob.c
@@ -271,9 +271,12 @@ GetJob_Iter(const struct getjob *gj, byte_iter_f *func, void *priv, int gzip)
 		(void)Rsilo_ReadGZChunk(gjs->rs, func, priv);
 	} else {
 		gs = gzip_stitch_new(func, priv);
-		VTAILQ_FOREACH(gjs, &gj->segs, list)
+		VTAILQ_FOREACH(gjs, &gj->segs, list) {
+			gzip_stitch_seglen(gs, (off_t)
+			    Header_Get_Number(gjs->hdr, "Content-Length"));
 			if (Rsilo_ReadGZChunk(gjs->rs, gzip_stitch_feed, gs) == 0)
 				break;
+		}
 		(void)gzip_stitch_fini(gs);
 	}
 }
diff --git a/gzip.c b/gzip.c
index 91aad41..570c940 100644
--- a/gzip.c
+++ b/gzip.c
@@ -225,6 +225,7 @@ struct gzip_stitch {
 	void			*priv;
 	const char		*state;
 	ssize_t			gzlen;
+	off_t			seglen;
 	int			retval;
 	uint32_t		crc;
 	uint32_t		l_crc;
@@ -265,6 +266,20 @@ gzip_stitch_new(byte_iter_f *func, void *priv)
 	return(gs);
 }
 
+/*
+ * The gzip trailer only holds the low 32 bits of the length of the segment
+ * about to be fed, combining the CRC takes all of it.
+ */
+
+void
+gzip_stitch_seglen(struct gzip_stitch *gs, off_t len)
+{
+
+	CHECK_OBJ_NOTNULL(gs, GZIP_STITCH_MAGIC);
+	assert(len > 0);
+	gs->seglen = len;
+}
+
 int
 gzip_stitch_feed(void *priv, const void *ptr, ssize_t len)
 {
@@ -337,8 +352,9 @@ gzip_stitch_feed(void *priv, const void *ptr, ssize_t len)
 			}
 			crc = le32dec(p + 5);
 			bytes = le32dec(p + 9);
+			assert(bytes == (uint32_t)gs->seglen);
 			gs->l_crc += bytes;
-			gs->crc = crc32_combine(gs->crc, crc, bytes);
+			gs->crc = crc32_combine(gs->crc, crc, gs->seglen);
 			gs->state = GZSTATE_OUTSIDE;
 			len -= 13;
 		}
-- 
2.43.0


From 126092907e6d2348ddbdd9445bcbee318763e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 81/87] fix: store and mksilo aborted, leaving a .hold, without
 a warcinfo.body section

---
 warcinfo.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/warcinfo.c b/warcinfo.c
index 2f43b29..797ec1e 100644
--- a/warcinfo.c
+++ b/warcinfo.c
@@ -66,7 +66,10 @@ c_iter(void *priv, const char *name, const char *arg)
 		return(0);
 	if (!strcasecmp(name, "title:"))
 		return(0);
-	VSB_printf(wi->body, "%s %s\r\n", name, arg);
+	if (arg == NULL)
+		VSB_printf(wi->body, "%s\r\n", name);
+	else
+		VSB_printf(wi->body, "%s %s\r\n", name, arg);
 	return (0);
 }
 
@@ -97,7 +100,8 @@ Warcinfo_New(const struct aardwarc *aa, struct wsilo *wsl, uint32_t silono)
 	wi->body = VSB_new_auto();
 	AN(wi->body);
 	VSB_printf(wi->body, "title: %s\r\n", r);
-	AZ(Config_Iter(aa->cfg, "warcinfo.body", wi, c_iter));
+	/* The section is optional, then there are no more fields */
+	(void)Config_Iter(aa->cfg, "warcinfo.body", wi, c_iter);
 	VSB_printf(wi->body, "format: WARC file version 1.1\r\n");
 	VSB_printf(wi->body, "conformsTo: %s\r\n",
 	    "http://iipc.github.io/warc-specifications/"
-- 
2.43.0


From ece826dd760bd7d0415c2a1a09b32ed876f41271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:05 +0000
Subject: [PATCH 82/87] fix: a stevedore session used more memory for every
 object

proto_del_ev() did not count the event as gone, so the array for poll(2)
grew, and more of it had to be cleared for every message, for as long as
the session lasted.
---
 proto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proto.c b/proto.c
index 968017e..e0bc1bc 100644
--- a/proto.c
+++ b/proto.c
@@ -107,6 +107,7 @@ proto_del_ev(uintptr_t *id)
 	}
 	CHECK_OBJ_NOTNULL(ev, EV_MAGIC);
 	VTAILQ_REMOVE(&evs, ev, list);
+	nevs--;
 	AZ(close(ev->fd));
 	FREE_OBJ(ev);
 	*id = 0;
-- 
2.43.0


From 87f8e654f7c2e5b33bf9594850deb929cd8f882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 83/87] fix: storing a segmented object took memory for the
 square of its segments

silo_mkparentdir() never freed its copy of the path, and is called for
every silo which is held already, each time another one is needed.
---
 wsilo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wsilo.c b/wsilo.c
index 85a8f2c..fed6455 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -104,6 +104,7 @@ silo_mkparentdir(const char *path)
 			return (i);
 		i = stat(p, &st);
 	}
+	free(p);
 	if (i == 0 && !S_ISDIR(st.st_mode)) {
 		errno = ENOTDIR;
 		return (-1);
-- 
2.43.0


From 27b9dd0c5f7ef0e33afaa8d2348e22cdd1caa684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 84/87] fix: stow aborted if the last filter reply came after
 the metadata was stored

---
 main_stow.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 1f6aedb..8a920be 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -653,9 +653,12 @@ stevedore_out(int fd, void *priv, int revents)
 			exit(2);
 		}
 	}
-	/* The metadata must come after all the files have been stored */
+	/*
+	 * The metadata must come after all the files have been stored and
+	 * all replies to the filter requests have been received.
+	 */
 	if (sj->meta != NULL && send_fd < 0 && VTAILQ_EMPTY(&get_list) &&
-	    VTAILQ_EMPTY(&ack_list))
+	    VTAILQ_EMPTY(&ack_list) && VTAILQ_EMPTY(&wait_list))
 		send_metadata(sj, fd);
 
 	AN(stevedore_0_ev);
-- 
2.43.0


From f483e117d4ecc7969419b0fc75a7e3826119b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 85/87] fix: audit mixed up the segments of an object stored
 several times in parallel

The copies can be split in different places, audit took whichever segment
with the right number came first and reported good silos as damaged.
---
 main_audit.c | 116 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 100 insertions(+), 16 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 2b17f68..37da5db 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <inttypes.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -58,6 +59,9 @@ struct audit {
 	const char		*silo_fn;
 	int			silo_no;
 	int			segment;
+	intmax_t		len;
+	int			tried;
+	struct audit		*next;
 	VTAILQ_ENTRY(audit)	list;
 };
 
@@ -180,11 +184,102 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	}
 }
 
+/* Does apn continue the object with ID oid after the segment ap ? */
+static int
+audit_is_next(const struct aardwarc *aa, const char *oid,
+    const struct audit *ap, const struct audit *apn)
+{
+	const char *origin;
+
+	CHECK_OBJ_NOTNULL(apn, AUDIT_MAGIC);
+	if (apn->segment != ap->segment + 1)
+		return (0);
+	origin = Header_Get(apn->hdr, "WARC-Segment-Origin-ID");
+	if (origin == NULL)
+		return (0);
+	if (*origin++ != '<')
+		return (0);
+	if (strncmp(aa->prefix, origin, strlen(aa->prefix)))
+		return (0);
+	origin += strlen(aa->prefix);
+	if (strncmp(origin, oid, strlen(oid)))
+		return (0);
+	origin += strlen(oid);
+	return (!strcmp(origin, ">"));
+}
+
+/*
+ * The same object can have been stored several times in parallel, split
+ * in different places:  Find segments which belong together.
+ */
+#define CHAIN_MAX_STEPS		100000
+
+static int
+audit_find_chain(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
+    struct audit *ap, intmax_t len, unsigned *steps)
+{
+	struct audit *apn, *ap1;
+	const char *p;
+
+	len += ap->len;
+	VTAILQ_FOREACH(apn, &segment_list, list) {
+		if (!audit_is_next(aa, Header_Get_Id(ap0->hdr), ap, apn))
+			continue;
+		if (++*steps > CHAIN_MAX_STEPS)
+			return (0);
+		ap->next = apn;
+		apn->next = NULL;
+		p = Header_Get(apn->hdr, "WARC-Segment-Total-Length");
+		if (p == NULL) {
+			if (audit_find_chain(aa, err, ap0, apn, len, steps))
+				return (1);
+			continue;
+		}
+		if (len + apn->len != strtoimax(p, NULL, 10))
+			continue;
+		*steps += CHAIN_MAX_STEPS / 100;
+		SHA256_Init(ap0->sha256);
+		ap0->sz = 0;
+		ap0->gzsz = 0;
+		for (ap1 = ap0; ap1 != NULL; ap1 = ap1->next)
+			audit_add_one_segment(aa, ap0, ap1);
+		VSB_clear(err);
+		audit_final_pending(aa, err, ap0, apn);
+		AZ(VSB_finish(err));
+		if (VSB_len(err) == 0)
+			return (1);
+	}
+	return (0);
+}
+
+static int
+audit_whole_pending(struct aardwarc *aa, struct vsb *err)
+{
+	struct audit *ap0, *ap;
+	unsigned steps = 0;
+
+	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
+	VTAILQ_FOREACH(ap0, &segment_list, list) {
+		CHECK_OBJ_NOTNULL(ap0, AUDIT_MAGIC);
+		if (ap0->segment == 1 && !ap0->tried)
+			break;
+	}
+	if (ap0 == NULL)
+		return (0);
+	ap0->tried = 1;
+	if (!audit_find_chain(aa, err, ap0, ap0, 0, &steps))
+		return (1);
+	printf("Auditing this segmented object: %s\n", Header_Get_Id(ap0->hdr));
+	for (ap = ap0; ap != NULL; ap = ap->next)
+		VTAILQ_REMOVE(&segment_list, ap, list);
+	return (1);
+}
+
 static int
 audit_one_pending(struct aardwarc *aa, struct vsb *err)
 {
 	struct audit *ap0, *ap1, *ap, *apn, *aps;
-	const char *origin, *oid, *p;
+	const char *oid, *p;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 	VTAILQ_FOREACH(ap0, &segment_list, list) {
@@ -206,21 +301,7 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 	do {
 		ap1 = ap;
 		VTAILQ_FOREACH_SAFE(apn, &segment_list, list, aps) {
-			CHECK_OBJ_NOTNULL(apn, AUDIT_MAGIC);
-			if (apn->segment != ap->segment + 1)
-				continue;
-			origin = Header_Get(apn->hdr, "WARC-Segment-Origin-ID");
-			if (origin == NULL)
-				continue;
-			if (*origin++ != '<')
-				continue;
-			if (strncmp(aa->prefix, origin, strlen(aa->prefix)))
-				continue;
-			origin += strlen(aa->prefix);
-			if (strncmp(origin, oid, strlen(oid)))
-				continue;
-			origin += strlen(oid);
-			if (strcmp(origin, ">"))
+			if (!audit_is_next(aa, oid, ap, apn))
 				continue;
 			audit_add_one_segment(aa, ap0, apn);
 			VTAILQ_REMOVE(&segment_list, apn, list);
@@ -294,6 +375,7 @@ audit_one(struct aardwarc *aa, struct vsb *err, struct audit *ap)
 	is = Header_Get(ap->hdr, "WARC-Segment-Number");
 	if (is != NULL) {
 		retval = 1;
+		ap->len = ap->sz;
 		VTAILQ_INSERT_TAIL(&segment_list, ap, list);
 		p = NULL;
 		ap->segment = strtoul(is, &p, 0);
@@ -451,6 +533,8 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 
 	err = VSB_new_auto();
 	AN(err);
+	while (audit_whole_pending(aa, err))
+		fflush(stdout);
 	while (audit_one_pending(aa, err))
 		fflush(stdout);
 	VTAILQ_FOREACH(ap, &segment_list, list) {
-- 
2.43.0


From 47e35832ecc8ba6f3adbfa89cd27005e4b3f8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 86/87] fix: housekeeping lists a record inserted twice only
 once

---
 index.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/index.c b/index.c
index f475016..26f2363 100644
--- a/index.c
+++ b/index.c
@@ -602,6 +602,22 @@ idx_cmp(const void *p1, const void *p2)
 	return (memcmp(p1, p2, 32));
 }
 
+/* The same record can have been inserted more than once, by reindex */
+
+static ssize_t
+idx_uniq(uint8_t *ptr, ssize_t len)
+{
+	ssize_t i, j = 0;
+
+	for (i = 0; i < len; i += 32) {
+		if (j > 0 && !memcmp(ptr + i, ptr + j - 32, 32))
+			continue;
+		memmove(ptr + j, ptr + i, 32);
+		j += 32;
+	}
+	return (j);
+}
+
 static int
 idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
     const struct vsb *vsba, const struct vsb *vsbh)
@@ -654,6 +670,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 			break;
 		AZ(sz & 0x1f);
 		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
+		sz = idx_uniq(spc, sz);
 		idx_merge(aa, spc, sz);
 	} while (1);
 	AZ(close(fd));
-- 
2.43.0


From a439088fd76898af342a8c35fb9575b39ef12711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:59 +0000
Subject: [PATCH 87/87] fix: reindex of a single silo must not take the link of
 a similar ID

---
 main_reindex.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/main_reindex.c b/main_reindex.c
index 527a02c..178fa91 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -290,6 +290,41 @@ match_all_segs(struct aardwarc *aa)
 	return (IDX_Resort(aa));
 }
 
+/* The key is always 24 digits, the ID can be shorter or longer */
+
+static int
+seg_has_key(const struct aardwarc *aa, const struct seg *seg, const char *key)
+{
+	size_t kl;
+
+	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
+	kl = strlen(key);
+	if (kl > aa->id_size)
+		kl = aa->id_size;
+	return (!strncmp(key, seg->id, kl));
+}
+
+/* If this very record already is in the index, there is nothing to insert */
+
+static int v_matchproto_(idx_iter_f)
+reindex_same_iter(void *priv, const char *key,
+    uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
+{
+	struct seg *seg, *seg2;
+
+	(void)cont;
+	if (!(flag & IDX_F_SEGMENTED))
+		return(0);
+	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
+		if (!seg->done && seg->silono == (ssize_t)silo &&
+		    seg->off == (off_t)offset && seg_has_key(priv, seg, key)) {
+			seg->done++;
+			drop_seg(seg);
+		}
+	}
+	return (0);
+}
+
 static int v_matchproto_(idx_iter_f)
 reindex_iter(void *priv, const char *key,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
@@ -301,7 +336,7 @@ reindex_iter(void *priv, const char *key,
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
-		if (!seg->done && !strncmp(key, seg->id, 16)) {
+		if (!seg->done && seg_has_key(priv, seg, key)) {
 			IDX_Insert(priv, seg->id, seg->flg, seg->silono,
 			    seg->off, cont);
 			seg->done++;
@@ -476,6 +511,7 @@ main_reindex(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	retval |= match_all_segs(aa);
 	if (nsegs > 0) {
 		printf("Rematch (%u)\n", nsegs);
+		(void)IDX_Iter(aa, NULL, reindex_same_iter, aa);
 		(void)IDX_Iter(aa, NULL, reindex_iter, aa);
 	}
 	if (nsegs > 0) {
-- 
2.43.0

