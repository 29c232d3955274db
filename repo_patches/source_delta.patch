From 30e2efbdc0568995a9bf3d244a724e599a56227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:06 +0000
Subject: [PATCH 01/42] fix: don't infer -nouser/-nogroup from a failed
 -uid/-gid comparison

The data flow transfer functions for -uid and -gid constrained the
-nouser/-nogroup predicate on both branches, so e.g. '! -uid 0 ! -nouser'
was optimized to -false whenever uid 0 has a passwd entry.
---
 src/opt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 49e8873..23cb133 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1655,7 +1655,8 @@ static struct bfs_expr *data_flow_gid(struct bfs_opt *opt, struct bfs_expr *expr
 		gid_t gid = range->min;
 		bool nogroup = !bfs_getgrgid(opt->ctx->groups, gid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOGROUP_PRED, nogroup);
+			// Nothing is known about other gids, so after_false is unchanged
+			constrain_pred(&opt->after_true.preds[NOGROUP_PRED], nogroup);
 		}
 	}
 
@@ -1729,7 +1730,8 @@ static struct bfs_expr *data_flow_uid(struct bfs_opt *opt, struct bfs_expr *expr
 		uid_t uid = range->min;
 		bool nouser = !bfs_getpwuid(opt->ctx->users, uid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOUSER_PRED, nouser);
+			// Nothing is known about other uids, so after_false is unchanged
+			constrain_pred(&opt->after_true.preds[NOUSER_PRED], nouser);
 		}
 	}
 
-- 
2.43.0


From 55eb905834e0aa7221316e860ff107d253ba9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:06 +0000
Subject: [PATCH 02/42] fix: don't assume inode numbers are unique across
 devices for -samefile

The data flow analysis removed the inode number from the possible range
when -samefile was false, so '-inum N ! -samefile FILE' never matched the
files on other devices that share FILE's inode number.
---
 src/opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 23cb133..3dcf1a2 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1698,8 +1698,8 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 	struct df_range *true_range = &opt->after_true.ranges[INUM_RANGE];
 	constrain_range(true_range, expr->ino);
 
-	struct df_range *false_range = &opt->after_false.ranges[INUM_RANGE];
-	range_remove(false_range, expr->ino);
+	// A file on a different device may share the same inode number, so we
+	// can't remove it from the after_false range
 
 	return expr;
 }
-- 
2.43.0


From d77d33dd790e651e2cfa3bb6927e556606927f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:06 +0000
Subject: [PATCH 03/42] fix: avoid overflow when rounding up huge file sizes

-size and -sparse overflowed for files within one unit of the maximum
file size.
---
 src/eval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 0d1bf68..849e6a4 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -963,7 +963,7 @@ bool eval_size(const struct bfs_expr *expr, struct bfs_eval *state) {
 	};
 
 	off_t scale = scales[expr->size_unit];
-	off_t size = (statbuf->size + scale - 1) / scale; // Round up
+	off_t size = statbuf->size / scale + (statbuf->size % scale != 0); // Round up
 	return bfs_expr_cmp(expr, size);
 }
 
@@ -976,7 +976,7 @@ bool eval_sparse(const struct bfs_expr *expr, struct bfs_eval *state) {
 		return false;
 	}
 
-	blkcnt_t expected = (statbuf->size + BFS_STAT_BLKSIZE - 1) / BFS_STAT_BLKSIZE;
+	blkcnt_t expected = statbuf->size / BFS_STAT_BLKSIZE + (statbuf->size % BFS_STAT_BLKSIZE != 0);
 	return statbuf->blocks < expected;
 }
 
-- 
2.43.0


From 4d8a1dd67326b519475578b2a2e9dfcd60e862fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:06 +0000
Subject: [PATCH 04/42] fix: avoid overflow when subtracting extreme timestamps

-[aBcm]time, -[aBcm]min and -used overflowed for files whose timestamps
are very far in the past or future.
---
 src/eval.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 849e6a4..49bcb5d 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -34,6 +34,7 @@
 #include <fcntl.h>
 #include <fnmatch.h>
 #include <grp.h>
+#include <limits.h>
 #include <pwd.h>
 #include <signal.h>
 #include <stdarg.h>
@@ -136,10 +137,22 @@ static const struct bfs_stat *eval_stat(struct bfs_eval *state) {
 /**
  * Get the difference (in seconds) between two struct timespecs.
  */
-static time_t timespec_diff(const struct timespec *lhs, const struct timespec *rhs) {
-	struct timespec diff = *lhs;
-	timespec_sub(&diff, rhs);
-	return diff.tv_sec;
+static long long timespec_diff(const struct timespec *lhs, const struct timespec *rhs) {
+	long long a = lhs->tv_sec;
+	long long b = rhs->tv_sec;
+
+	// Timestamps can be (nearly) arbitrary, so don't let the difference overflow
+	if (b < 0 && a > LLONG_MAX + b) {
+		return LLONG_MAX;
+	} else if (b > 0 && a < LLONG_MIN + b) {
+		return LLONG_MIN;
+	}
+
+	long long diff = a - b;
+	if (lhs->tv_nsec < rhs->tv_nsec && diff > LLONG_MIN) {
+		--diff;
+	}
+	return diff;
 }
 
 bool bfs_expr_cmp(const struct bfs_expr *expr, long long n) {
@@ -275,7 +288,7 @@ bool eval_time(const struct bfs_expr *expr, struct bfs_eval *state) {
 		return false;
 	}
 
-	time_t diff = timespec_diff(&expr->reftime, time);
+	long long diff = timespec_diff(&expr->reftime, time);
 	switch (expr->time_unit) {
 	case BFS_DAYS:
 		diff /= 60 * 24;
@@ -311,7 +324,7 @@ bool eval_used(const struct bfs_expr *expr, struct bfs_eval *state) {
 	}
 
 	long long day_seconds = 60 * 60 * 24;
-	diff = (diff + day_seconds - 1) / day_seconds;
+	diff = diff / day_seconds + (diff % day_seconds != 0);
 	return bfs_expr_cmp(expr, diff);
 }
 
-- 
2.43.0


From bec39fda4d4a04c207ea14f416956d752931e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 05/42] fix: avoid overflow when printing extreme years

%a, %c, %t and %A+ etc. overflowed when tm_year is close to INT_MAX.
---
 src/printf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/printf.c b/src/printf.c
index 30ec201..b5cb4a6 100644
--- a/src/printf.c
+++ b/src/printf.c
@@ -129,7 +129,7 @@ static int bfs_printf_ctime(CFILE *cfile, const struct bfs_fmt *fmt, const struc
 		return -1;
 	}
 
-	BFS_PRINTF_BUF(buf, "%s %s %2d %.2d:%.2d:%.2d.%09ld0 %4d",
+	BFS_PRINTF_BUF(buf, "%s %s %2d %.2d:%.2d:%.2d.%09ld0 %4lld",
 		days[tm.tm_wday],
 		months[tm.tm_mon],
 		tm.tm_mday,
@@ -137,7 +137,7 @@ static int bfs_printf_ctime(CFILE *cfile, const struct bfs_fmt *fmt, const struc
 		tm.tm_min,
 		tm.tm_sec,
 		(long)ts->tv_nsec,
-		1900 + tm.tm_year);
+		1900LL + tm.tm_year);
 
 	return bfs_fprintf(cfile, fmt, "%s", buf);
 }
@@ -168,8 +168,8 @@ static int bfs_printf_strftime(CFILE *cfile, const struct bfs_fmt *fmt, const st
 		ret = snprintf(buf, sizeof(buf), "%lld.%09ld0", (long long)ts->tv_sec, (long)ts->tv_nsec);
 		break;
 	case '+':
-		ret = snprintf(buf, sizeof(buf), "%4d-%.2d-%.2d+%.2d:%.2d:%.2d.%09ld0",
-			1900 + tm.tm_year,
+		ret = snprintf(buf, sizeof(buf), "%4lld-%.2d-%.2d+%.2d:%.2d:%.2d.%09ld0",
+			1900LL + tm.tm_year,
 			tm.tm_mon + 1,
 			tm.tm_mday,
 			tm.tm_hour,
-- 
2.43.0


From 9d3643de4666bd25a05b612d837e1decae7e3f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:02 +0000
Subject: [PATCH 06/42] fix: take units into account in -size data flow
 analysis

-size arguments with different units were compared as plain numbers, so
e.g. '-size +5k -size -3M' was optimized to -false.
---
 src/eval.c | 28 ++++++++++++++++------------
 src/expr.h |  5 +++++
 src/opt.c  | 49 ++++++++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 49bcb5d..f4f641a 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -169,6 +169,21 @@ bool bfs_expr_cmp(const struct bfs_expr *expr, long long n) {
 	return false;
 }
 
+long long bfs_size_scale(enum bfs_size_unit unit) {
+	static const long long scales[] = {
+		[BFS_BLOCKS] = 512,
+		[BFS_BYTES] = 1,
+		[BFS_WORDS] = 2,
+		[BFS_KB] = 1LL << 10,
+		[BFS_MB] = 1LL << 20,
+		[BFS_GB] = 1LL << 30,
+		[BFS_TB] = 1LL << 40,
+		[BFS_PB] = 1LL << 50,
+	};
+
+	return scales[unit];
+}
+
 /** Common code for fnmatch() tests. */
 static bool eval_fnmatch(const struct bfs_expr *expr, const char *str) {
 	if (expr->literal) {
@@ -964,18 +979,7 @@ bool eval_size(const struct bfs_expr *expr, struct bfs_eval *state) {
 		return false;
 	}
 
-	static const off_t scales[] = {
-		[BFS_BLOCKS] = 512,
-		[BFS_BYTES] = 1,
-		[BFS_WORDS] = 2,
-		[BFS_KB] = 1LL << 10,
-		[BFS_MB] = 1LL << 20,
-		[BFS_GB] = 1LL << 30,
-		[BFS_TB] = 1LL << 40,
-		[BFS_PB] = 1LL << 50,
-	};
-
-	off_t scale = scales[expr->size_unit];
+	off_t scale = bfs_size_scale(expr->size_unit);
 	off_t size = statbuf->size / scale + (statbuf->size % scale != 0); // Round up
 	return bfs_expr_cmp(expr, size);
 }
diff --git a/src/expr.h b/src/expr.h
index c116778..c77d6db 100644
--- a/src/expr.h
+++ b/src/expr.h
@@ -265,6 +265,11 @@ bool bfs_expr_never_returns(const struct bfs_expr *expr);
  */
 bool bfs_expr_cmp(const struct bfs_expr *expr, long long n);
 
+/**
+ * @return The number of bytes in a file size unit.
+ */
+long long bfs_size_scale(enum bfs_size_unit unit);
+
 /**
  * Free any resources owned by an expression.
  */
diff --git a/src/opt.c b/src/opt.c
index 3dcf1a2..809e3bb 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1704,9 +1704,57 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 	return expr;
 }
 
+/** Convert a -size argument to bytes, saturating on overflow. */
+static long long size_to_bytes(const struct bfs_expr *expr, long long size) {
+	long long scale = bfs_size_scale(expr->size_unit);
+	return size > LLONG_MAX / scale ? LLONG_MAX : size * scale;
+}
+
 /** Transfer function for -size. */
 static struct bfs_expr *data_flow_size(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
 	struct df_range *range = &opt->after_true.ranges[SIZE_RANGE];
+	struct df_range *false_range = &opt->after_false.ranges[SIZE_RANGE];
+
+	// SIZE_RANGE is in bytes, but different -sizes can have different units.
+	// Since -size rounds up,
+	//
+	//     -size N  <=>  (N - 1) * scale < size <= N * scale
+	long long max = size_to_bytes(expr, expr->num);
+
+	switch (expr->int_cmp) {
+	case BFS_INT_EQUAL:
+		constrain_max(range, max);
+		if (expr->num > 0) {
+			long long min = size_to_bytes(expr, expr->num - 1);
+			constrain_min(range, min);
+			range_remove(range, min);
+			if (expr->size_unit == BFS_BYTES) {
+				range_remove(false_range, max);
+			}
+		} else {
+			constrain_min(range, 0);
+			range_remove(false_range, 0);
+		}
+		break;
+
+	case BFS_INT_LESS:
+		if (expr->num > 0) {
+			long long min = size_to_bytes(expr, expr->num - 1);
+			constrain_max(range, min);
+			constrain_min(false_range, min);
+			range_remove(false_range, min);
+		} else {
+			constrain_max(range, -1);
+		}
+		break;
+
+	case BFS_INT_GREATER:
+		constrain_min(range, max);
+		range_remove(range, max);
+		constrain_max(false_range, max);
+		break;
+	}
+
 	if (range->min == range->max) {
 		expr->probability = 0.01;
 	} else {
@@ -1889,7 +1937,6 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 		{eval_gid,     GID_RANGE},
 		{eval_inum,   INUM_RANGE},
 		{eval_links, LINKS_RANGE},
-		{eval_size,   SIZE_RANGE},
 		{eval_uid,     UID_RANGE},
 	};
 
-- 
2.43.0


From cda88cba037fc86347aaf0e2335c2986f3f700a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:02 +0000
Subject: [PATCH 07/42] fix: don't skip bind mounts when collecting filesystem
 types

Filesystem types are looked up by mount ID, but bind mounts of the same
filesystem as their parent directory were not recorded, so -fstype and
-printf %F gave 'unknown' for the files beneath them.
---
 src/mtab.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mtab.c b/src/mtab.c
index 40a9885..cc707b4 100644
--- a/src/mtab.c
+++ b/src/mtab.c
@@ -202,10 +202,10 @@ static int bfs_mtab_fill_types(struct bfs_mtab *mtab) {
 	int ret = -1;
 
 	// It's possible that /path/to/mount was unmounted between bfs_mtab_parse() and bfs_mtab_fill_types().
-	// In that case, the dev_t of /path/to/mount will be the same as /path/to, which should not get its
+	// In that case, the mount ID of /path/to/mount will be the same as /path/to, which should not get its
 	// fstype from the old mount record of /path/to/mount.
 	//
-	// Detect this by comparing the st_dev of the parent (/path/to) and child (/path/to/mount).  Only when
+	// Detect this by comparing the mount ID of the parent (/path/to) and child (/path/to/mount).  Only when
 	// they differ can the filesystem type actually change between them.  As a minor optimization, we keep
 	// the parent directory open in case multiple mounts have the same parent (e.g. /mnt).
 	char *parent_dir = NULL;
@@ -251,8 +251,8 @@ static int bfs_mtab_fill_types(struct bfs_mtab *mtab) {
 			continue;
 		}
 
-		if (parent_ret == 0 && parent_stat.dev == sb.dev && parent_stat.ino != sb.ino) {
-			// Not a mount point any more (or a bind mount, but with the same fstype)
+		if (parent_ret == 0 && parent_stat.mnt_id == sb.mnt_id && parent_stat.ino != sb.ino) {
+			// Not a mount point any more
 			continue;
 		}
 
-- 
2.43.0


From 5df48d6c5c4a2aad98fa32a5da87d52315e77f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:19 +0000
Subject: [PATCH 08/42] fix: run -execdir ... {} + for a trailing-slash root in
 the right directory

With e.g. 'bfs dir/ -depth -execdir cmd {} +', the root 'dir/' itself was
batched together with the files inside of it, since its path is a prefix
match for their working directory.
---
 src/exec.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 45c9f1d..c8ce165 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -265,6 +265,15 @@ static void bfs_exec_free_arg(char *arg, const char *tmpl) {
 	}
 }
 
+/** Get the length of the working directory's path for a file. */
+static size_t bfs_exec_wdlen(const struct BFTW *ftwbuf) {
+	size_t len = ftwbuf->nameoff;
+	if (len == 0 && ftwbuf->path[0] == '/') {
+		++len;
+	}
+	return len;
+}
+
 /** Open a file to use as the working directory. */
 static int bfs_exec_openwd(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	bfs_assert(execbuf->wd_fd < 0);
@@ -285,14 +294,10 @@ static int bfs_exec_openwd(struct bfs_exec *execbuf, const struct BFTW *ftwbuf)
 		}
 	}
 
-	execbuf->wd_len = ftwbuf->nameoff;
+	execbuf->wd_len = bfs_exec_wdlen(ftwbuf);
 	if (execbuf->wd_len == 0) {
-		if (ftwbuf->path[0] == '/') {
-			++execbuf->wd_len;
-		} else {
-			// The path is something like "foo", so we're already in the right directory
-			return 0;
-		}
+		// The path is something like "foo", so we're already in the right directory
+		return 0;
 	}
 
 	execbuf->wd_path = strndup(ftwbuf->path, execbuf->wd_len);
@@ -574,7 +579,7 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 /** Check if we need to flush the execbuf because we're changing directories. */
 static bool bfs_exec_changed_dirs(const struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if (execbuf->flags & BFS_EXEC_CHDIR) {
-		if (ftwbuf->nameoff > execbuf->wd_len
+		if (bfs_exec_wdlen(ftwbuf) != execbuf->wd_len
 		    || (execbuf->wd_path && strncmp(ftwbuf->path, execbuf->wd_path, execbuf->wd_len) != 0)) {
 			bfs_exec_debug(execbuf, "Changed directories, executing buffered command\n");
 			return true;
-- 
2.43.0


From d28ec54784b442540b59885360bc3dce69546de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:32 +0000
Subject: [PATCH 09/42] fix: look up relative -execdir commands in the right
 directory

'-execdir ./cmd' was checked for existence in bfs's own working directory
instead of the directory the command will run in, so it failed with ENOENT
unless ./cmd happened to exist in both places.
---
 src/xspawn.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/xspawn.c b/src/xspawn.c
index 3fa4e60..07163b4 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -401,21 +401,22 @@ static bool bfs_resolve_relative(const struct bfs_resolver *res) {
 	return false;
 }
 
-/** Check if we can resolve the executable before file actions. */
-static bool bfs_can_resolve_early(const struct bfs_resolver *res, const struct bfs_spawn *ctx) {
-	if (!bfs_resolve_relative(res)) {
-		return true;
-	}
-
+/** Check if the spawned process will change directories. */
+static bool bfs_spawn_changes_dir(const struct bfs_spawn *ctx) {
 	if (ctx) {
 		for_slist (const struct bfs_spawn_action, action, ctx) {
 			if (action->op == BFS_SPAWN_FCHDIR) {
-				return false;
+				return true;
 			}
 		}
 	}
 
-	return true;
+	return false;
+}
+
+/** Check if we can resolve the executable before file actions. */
+static bool bfs_can_resolve_early(const struct bfs_resolver *res, const struct bfs_spawn *ctx) {
+	return !bfs_resolve_relative(res) || !bfs_spawn_changes_dir(ctx);
 }
 
 /** Get the required path resolution buffer size. */
@@ -447,7 +448,11 @@ static int bfs_resolve_early(struct bfs_resolver *res, const char *exe, const st
 		//
 		//     - faccessat() is faster than fork()/clone() + execv()
 		//     - posix_spawn() is not guaranteed to report ENOENT
-		if (xfaccessat(AT_FDCWD, exe, X_OK) == 0) {
+		//
+		// But relative paths are resolved in the child's working
+		// directory, so we can't check them before changing to it.
+		bool relative = exe[0] != '/' && bfs_spawn_changes_dir(ctx);
+		if (relative || xfaccessat(AT_FDCWD, exe, X_OK) == 0) {
 			res->done = true;
 			return 0;
 		} else {
-- 
2.43.0


From 69ebe49ebb6a62314fca870459a1b2ff99b95399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:39 +0000
Subject: [PATCH 10/42] fix: reject -mtime etc. arguments that overflow

'-mtime 30500568904943w' silently wrapped around to a tiny duration.
---
 src/parse.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 9c39d6b..77ad9e5 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -992,18 +992,19 @@ static struct bfs_expr *parse_time(struct bfs_parser *parser, int field, int arg
 	expr->num = 0;
 
 	while (true) {
+		unsigned long long scale = 1;
 		switch (*tail) {
 		case 'w':
-			time *= 7;
+			scale *= 7;
 			_fallthrough;
 		case 'd':
-			time *= 24;
+			scale *= 24;
 			_fallthrough;
 		case 'h':
-			time *= 60;
+			scale *= 60;
 			_fallthrough;
 		case 'm':
-			time *= 60;
+			scale *= 60;
 			_fallthrough;
 		case 's':
 			break;
@@ -1012,7 +1013,12 @@ static struct bfs_expr *parse_time(struct bfs_parser *parser, int field, int arg
 			return NULL;
 		}
 
-		expr->num += time;
+		if (time > (unsigned long long)(LLONG_MAX - expr->num) / scale) {
+			parse_expr_error(parser, expr, "${bld}%pq${rs} is too large a time.\n", expr->argv[1]);
+			return NULL;
+		}
+
+		expr->num += time * scale;
 
 		if (!*++tail) {
 			break;
-- 
2.43.0


From 9743b8b6aabce9389817a6661bab4035dfbdbf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:05 +0000
Subject: [PATCH 11/42] fix: keep both outcomes when replacing an ignored
 expression with -false

'bfs \( -type f -o -name x \) , -type f' treated everything after the comma
as unreachable (or only reachable for non-files) at -O2 and above.
---
 src/opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opt.c b/src/opt.c
index 809e3bb..91b2b6a 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1883,6 +1883,7 @@ static struct bfs_expr *opt_ignore(struct bfs_opt *opt, struct bfs_expr *expr, b
 done:
 	if (!delete && expr->pure) {
 		// If we're not deleting the expression entirely, replace it with -false
+		df_join(&opt->after_false, &opt->after_true);
 		expr = opt_const(opt, false);
 	}
 	return expr;
-- 
2.43.0


From 87883841da5e8367e10771f1ced7ba5578d28b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:05 +0000
Subject: [PATCH 12/42] fix: re-annotate simplified comma expressions

'bfs ! \( -printf x -a -printf x \) -o \( -false , -printf x \)' kept a stale
always_false on the comma expression and aborted on an assertion.
---
 src/opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt.c b/src/opt.c
index 91b2b6a..74e9f72 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -2169,7 +2169,7 @@ static struct bfs_expr *simplify_comma(struct bfs_opt *opt, struct bfs_expr *exp
 		return only_child(expr);
 	}
 
-	return expr;
+	return visit_shallow(opt, expr, &annotate);
 }
 
 /**
-- 
2.43.0


From a1de569b822e367b0f87573c5c41af5c2277277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:38 +0000
Subject: [PATCH 13/42] fix: don't replace an ignored true expression with
 -false

'bfs -printf A -a -true , -printf B' never ran the second -printf at -O2 and
above: the trailing -true became -false while the conjunction was still
marked always true, so the code after the comma looked unreachable.
---
 src/opt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 74e9f72..66448e5 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1882,9 +1882,11 @@ static struct bfs_expr *opt_ignore(struct bfs_opt *opt, struct bfs_expr *expr, b
 
 done:
 	if (!delete && expr->pure) {
-		// If we're not deleting the expression entirely, replace it with -false
-		df_join(&opt->after_false, &opt->after_true);
-		expr = opt_const(opt, false);
+		// If we're not deleting the expression entirely, replace it with
+		// a constant.  Our ancestors may already rely on always_true.
+		df_join(&opt->after_true, &opt->after_false);
+		opt->after_false = opt->after_true;
+		expr = opt_const(opt, expr->always_true);
 	}
 	return expr;
 }
-- 
2.43.0


From 260d00c2e912ccb0b87bd3af61926d6216a3da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:27 +0000
Subject: [PATCH 14/42] fix: keep single-threaded -S dfs searches in
 depth-first order

Without an ioq, bftw_stat_files() immediately moved every waiting file to the
ready list, which is FIFO unless BFTW_QORDER is set, so '-S dfs -j1' actually
visited files in breadth-first order.
---
 src/bftw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bftw.c b/src/bftw.c
index f822456..df94a50 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -952,7 +952,7 @@ static int bftw_state_init(struct bftw_state *state, const struct bftw_args *arg
 	if (state->flags & BFTW_BUFFER) {
 		qflags |= BFTW_QBUFFER;
 	}
-	if (state->flags & BFTW_SORT) {
+	if ((state->flags & BFTW_SORT) || (state->strategy == BFTW_DFS && nthreads == 0)) {
 		qflags |= BFTW_QORDER;
 	} else if (nthreads == 1) {
 		qflags |= BFTW_QBALANCE;
-- 
2.43.0


From 1282a273a659f1b00c1d75d3ed6c34070792bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:07 +0000
Subject: [PATCH 15/42] fix: reserve file descriptors for -exclude expressions

Tests like -empty and -nouser need descriptors of their own, which were only
reserved when they appeared outside of -exclude.
---
 src/eval.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index f4f641a..bd84473 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -1642,8 +1642,14 @@ done:
 	free(dir);
 
 	int ret = limit - nopen;
+	ret -= ctx->exclude->persistent_fds;
 	ret -= ctx->expr->persistent_fds;
-	ret -= ctx->expr->ephemeral_fds;
+
+	int ephemeral_fds = ctx->expr->ephemeral_fds;
+	if (ephemeral_fds < ctx->exclude->ephemeral_fds) {
+		ephemeral_fds = ctx->exclude->ephemeral_fds;
+	}
+	ret -= ephemeral_fds;
 
 	// bftw() needs at least 2 available fds
 	if (ret < 2) {
-- 
2.43.0


From 58e4546cd3a7baae00bc3700a8f30430f1cc5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:08 +0000
Subject: [PATCH 16/42] fix: apply the umask to every action of a symbolic
 -perm clause

Only the first action of a clause without ugoa respected the umask, so +w+w
meant something different from +w,+w.
---
 src/parse.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 77ad9e5..5ee7115 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1992,11 +1992,13 @@ static int parse_mode(const struct bfs_parser *parser, const char *mode, struct
 			_fallthrough;
 
 		case MODE_ACTION:
-			if (who == 0) {
-				who = 0777;
-				mask = who & ~umask;
-			} else {
-				mask = who;
+			if (state == MODE_ACTION) {
+				if (who == 0) {
+					who = 0777;
+					mask = who & ~umask;
+				} else {
+					mask = who;
+				}
 			}
 
 			switch (*i) {
-- 
2.43.0


From 1618486b57e4d0bf27e4591cc591e69ac094af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:46 +0000
Subject: [PATCH 17/42] fix: make -daystart correct on days with a DST
 transition

tm_isdst was kept from the current time, so the coming midnight was off by the
DST offset if it has a different one.
---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 5ee7115..a66a448 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1161,6 +1161,7 @@ static struct bfs_expr *parse_daystart(struct bfs_parser *parser, int arg1, int
 	if (tm.tm_hour || tm.tm_min || tm.tm_sec || parser->now.tv_nsec) {
 		++tm.tm_mday;
 	}
+	tm.tm_isdst = -1;
 	tm.tm_hour = 0;
 	tm.tm_min = 0;
 	tm.tm_sec = 0;
-- 
2.43.0


From b3bc1574c1cb6af5f581b6879316af65d95f7a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:35 +0000
Subject: [PATCH 18/42] fix: match -regex against the whole path with Oniguruma

onig_match() returns the first match it finds, so e.g. './a|./ab' didn't match
./ab, even though the whole path matches the second alternative.
---
 src/xregex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xregex.c b/src/xregex.c
index 796544e..4a30e22 100644
--- a/src/xregex.c
+++ b/src/xregex.c
@@ -266,7 +266,8 @@ int bfs_regexec(struct bfs_regex *regex, const char *str, enum bfs_regexec_flags
 
 	int ret;
 	if (flags & BFS_REGEX_ANCHOR) {
-		ret = onig_match(regex->impl, ustr, end, ustr, NULL, ONIG_OPTION_DEFAULT);
+		// Don't settle for a match of just a prefix, if there is a longer one
+		ret = onig_match(regex->impl, ustr, end, ustr, NULL, ONIG_OPTION_FIND_LONGEST);
 	} else {
 		ret = onig_search(regex->impl, ustr, end, ustr, end, NULL, ONIG_OPTION_DEFAULT);
 	}
-- 
2.43.0


From fdcf1bcd53aec6f2537c360204f5d8de231aecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:35 +0000
Subject: [PATCH 19/42] fix: fold the case of multibyte characters in literal
 -iname etc. patterns
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The literal fast path used strcasecmp(), which only handles single bytes, so
-iname É didn't match é even though -iname 'É*' did.
---
 src/eval.c  | 5 -----
 src/parse.c | 4 +++-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index bd84473..239b665 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -187,11 +187,6 @@ long long bfs_size_scale(enum bfs_size_unit unit) {
 /** Common code for fnmatch() tests. */
 static bool eval_fnmatch(const struct bfs_expr *expr, const char *str) {
 	if (expr->literal) {
-#ifdef FNM_CASEFOLD
-		if (expr->fnm_flags & FNM_CASEFOLD) {
-			return strcasecmp(expr->pattern, str) == 0;
-		}
-#endif
 		return strcmp(expr->pattern, str) == 0;
 	} else {
 		return fnmatch(expr->pattern, str, expr->fnm_flags) == 0;
diff --git a/src/parse.c b/src/parse.c
index a66a448..0ef3c0a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1123,7 +1123,9 @@ static struct bfs_expr *parse_fnmatch(const struct bfs_parser *parser, struct bf
 	// parse the pattern, so special-case patterns with no wildcards.
 	//
 	//     https://pubs.opengroup.org/onlinepubs/9799919799/utilities/V3_chap02.html#tag_19_14_01
-	expr->literal = strcspn(expr->pattern, "?*\\[") == len;
+	//
+	// But strcasecmp() can't handle multibyte characters.
+	expr->literal = !casefold && strcspn(expr->pattern, "?*\\[") == len;
 
 	return expr;
 }
-- 
2.43.0


From a0c07ad7bcd58f4d479fe4c0dad7d9dca6294347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:35 +0000
Subject: [PATCH 20/42] fix: don't consider ./ and ../ hidden

A trailing slash is part of the root's name, so 'bfs ./ -nohidden' skipped
everything.
---
 src/eval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 239b665..eaadaf9 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -585,7 +585,8 @@ bool eval_hidden(const struct bfs_expr *expr, struct bfs_eval *state) {
 	//
 	//     $ bfs . -nohidden
 	//     $ bfs .. -nohidden
-	return name[0] == '.' && strcmp(name, ".") != 0 && strcmp(name, "..") != 0;
+	size_t len = strcspn(name, "/");
+	return name[0] == '.' && len != 1 && !(len == 2 && name[1] == '.');
 }
 
 /**
-- 
2.43.0


From da2a800c8a53ca919c651685ced0f29a48dbe5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:03 +0000
Subject: [PATCH 21/42] fix: don't revisit pruned files with -S ids -depth

Iterative deepening with -depth visits everything again in a second phase, but
only remembered pruned directories.  So e.g. -unique didn't skip hard links,
and -X reported unsafe paths twice.
---
 src/bftw.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bftw.c b/src/bftw.c
index df94a50..4bd1d3c 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2165,6 +2165,8 @@ struct bftw_ids_state {
 	enum bftw_visit visit;
 	/** Whether to override the bftw_visit. */
 	bool force_visit;
+	/** Whether there will be BFTW_POST visits. */
+	bool post_order;
 	/** The current minimum depth (inclusive). */
 	size_t min_depth;
 	/** The current maximum depth (exclusive). */
@@ -2218,7 +2220,8 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		break;
 
 	case BFTW_PRUNE:
-		if (ftwbuf->type == BFS_DIR) {
+		// All files get BFTW_POST visits unless they're pruned
+		if (ftwbuf->type == BFS_DIR || state->post_order) {
 			if (!trie_insert_str(&state->pruned, ftwbuf->path)) {
 				state->nested.error = errno;
 				ret = BFTW_STOP;
@@ -2239,6 +2242,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->ptr = args->ptr;
 	state->visit = BFTW_PRE;
 	state->force_visit = false;
+	state->post_order = args->flags & BFTW_POST_ORDER;
 	state->min_depth = 0;
 	state->max_depth = 1;
 	trie_init(&state->pruned);
-- 
2.43.0


From 89925e1edd94da266a56811739a5be1e6f2db962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:21 +0000
Subject: [PATCH 22/42] fix: don't report starting paths deleted by an earlier
 ids/eds pass

Iterative deepening visits the starting paths again in every pass.  If
the callback itself deleted one in an earlier pass (bfs -S eds f -delete,
bfs -S ids f d -exec rm {} \;), the later passes reported it as missing
and failed.
---
 src/bftw.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index 4bd1d3c..d4fa675 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2165,18 +2165,25 @@ struct bftw_ids_state {
 	enum bftw_visit visit;
 	/** Whether to override the bftw_visit. */
 	bool force_visit;
-	/** Whether there will be BFTW_POST visits. */
-	bool post_order;
+	/** Whether all files (not just directories) get BFTW_POST visits. */
+	bool post_all;
 	/** The current minimum depth (inclusive). */
 	size_t min_depth;
 	/** The current maximum depth (exclusive). */
 	size_t max_depth;
 	/** The set of pruned paths. */
 	struct trie pruned;
+	/** The set of non-directory roots we're done with. */
+	struct trie done;
 	/** Whether the bottom has been found. */
 	bool bottom;
 };
 
+/** Check if we're already done with a root. */
+static bool bftw_ids_done(const struct bftw_ids_state *state, const char *path) {
+	return trie_find_str(&state->done, path) || trie_find_str(&state->pruned, path);
+}
+
 /** Iterative deepening callback function. */
 static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr) {
 	struct bftw_ids_state *state = ptr;
@@ -2187,7 +2194,11 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	}
 
 	if (ftwbuf->type == BFS_ERROR) {
-		if (ftwbuf->depth + 1 >= state->min_depth) {
+		bool again = state->min_depth > 0 || state->visit == BFTW_POST;
+		if (again && ftwbuf->depth == 0 && bftw_ids_done(state, ftwbuf->path)) {
+			// The callback may have deleted it
+			return BFTW_PRUNE;
+		} else if (ftwbuf->depth + 1 >= state->min_depth) {
 			return state->delegate(ftwbuf, state->ptr);
 		} else {
 			return BFTW_PRUNE;
@@ -2211,6 +2222,13 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		ret = state->delegate(ftwbuf, state->ptr);
 	}
 
+	if (ftwbuf->depth == 0 && ftwbuf->type != BFS_DIR && !state->post_all) {
+		if (!trie_insert_str(&state->done, ftwbuf->path)) {
+			state->nested.error = errno;
+			return BFTW_STOP;
+		}
+	}
+
 	switch (ret) {
 	case BFTW_CONTINUE:
 		if (ftwbuf->type == BFS_DIR && ftwbuf->depth + 1 >= state->max_depth) {
@@ -2220,8 +2238,8 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		break;
 
 	case BFTW_PRUNE:
-		// All files get BFTW_POST visits unless they're pruned
-		if (ftwbuf->type == BFS_DIR || state->post_order) {
+		// Remember not to do the BFTW_POST visit either
+		if (ftwbuf->type == BFS_DIR || state->post_all) {
 			if (!trie_insert_str(&state->pruned, ftwbuf->path)) {
 				state->nested.error = errno;
 				ret = BFTW_STOP;
@@ -2242,10 +2260,11 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->ptr = args->ptr;
 	state->visit = BFTW_PRE;
 	state->force_visit = false;
-	state->post_order = args->flags & BFTW_POST_ORDER;
+	state->post_all = (args->flags & BFTW_POST_ORDER) && args->strategy == BFTW_IDS;
 	state->min_depth = 0;
 	state->max_depth = 1;
 	trie_init(&state->pruned);
+	trie_init(&state->done);
 	state->bottom = false;
 
 	struct bftw_args ids_args = *args;
@@ -2257,6 +2276,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 
 /** Finish an iterative deepening search. */
 static int bftw_ids_destroy(struct bftw_ids_state *state) {
+	trie_destroy(&state->done);
 	trie_destroy(&state->pruned);
 	return bftw_state_destroy(&state->nested);
 }
-- 
2.43.0


From 5ae7e38bda32f0770ea773bbbd8590ada82a1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:29 +0000
Subject: [PATCH 23/42] fix: skip directories when resolving commands in $PATH

A directory with the same name as the command in an earlier $PATH component
made -exec fail with EACCES, unlike execvp().
---
 src/xspawn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xspawn.c b/src/xspawn.c
index 07163b4..1abae47 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -16,6 +16,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <sys/resource.h>
+#include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
 
@@ -363,7 +364,9 @@ static int bfs_resolve_late(struct bfs_resolver *res) {
 			return -1;
 		}
 
-		if (xfaccessat(AT_FDCWD, buf, X_OK) == 0) {
+		// Directories may be "executable" too, but like execvp(), skip them
+		struct stat sb;
+		if (xfaccessat(AT_FDCWD, buf, X_OK) == 0 && stat(buf, &sb) == 0 && !S_ISDIR(sb.st_mode)) {
 			res->exe = buf;
 			res->done = true;
 			return 0;
-- 
2.43.0


From 2d0b6505a69cf3493d22404c20065f5178e0e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:19 +0000
Subject: [PATCH 24/42] fix: don't lose files when -exec ... + recovers from
 E2BIG

Shrinking the argument list by estimated size could remove every argument,
and then all the files of that batch were dropped.  Always try at least one
file, and keep the rest of the batch if even that one doesn't fit.  Also
don't forget the error when a later command succeeds.
---
 src/exec.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index c8ce165..71a01e2 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -542,9 +542,12 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 		}
 
 		// Try to recover from E2BIG by trying fewer and fewer arguments
-		// until they fit
+		// until they fit, or not even one of them does
 		size_t new_max = bfs_exec_update_max(execbuf);
-		while (execbuf->arg_size > new_max) {
+		if (execbuf->argc == execbuf->tmpl_argc) {
+			break;
+		}
+		while (execbuf->arg_size > new_max && execbuf->argc > execbuf->tmpl_argc) {
 			execbuf->argv[execbuf->argc] = execbuf->argv[execbuf->argc - 1];
 			execbuf->arg_size -= bfs_exec_arg_size(execbuf->argv[execbuf->argc]);
 			--execbuf->argc;
@@ -562,7 +565,7 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 		// If we recovered from E2BIG, there are unused arguments at the
 		// end of the list
 		for (size_t i = new_argc + 1; i <= orig_argc; ++i) {
-			if (error == 0) {
+			if (error == 0 || error == E2BIG) {
 				execbuf->argv[execbuf->argc] = execbuf->argv[i];
 				execbuf->arg_size += bfs_exec_arg_size(execbuf->argv[execbuf->argc]);
 				++execbuf->argc;
@@ -576,6 +579,23 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 	return ret;
 }
 
+/** Execute all the pending commands from a BFS_EXEC_MULTI execbuf. */
+static int bfs_exec_flush_all(struct bfs_exec *execbuf) {
+	int ret = 0, error = 0;
+
+	while (bfs_exec_args_remain(execbuf)) {
+		if (bfs_exec_flush(execbuf) != 0) {
+			ret = -1;
+			if (errno != 0) {
+				error = errno;
+			}
+		}
+	}
+
+	errno = error;
+	return ret;
+}
+
 /** Check if we need to flush the execbuf because we're changing directories. */
 static bool bfs_exec_changed_dirs(const struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if (execbuf->flags & BFS_EXEC_CHDIR) {
@@ -632,9 +652,7 @@ static int bfs_exec_multi(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	}
 
 	if (bfs_exec_changed_dirs(execbuf, ftwbuf)) {
-		while (bfs_exec_args_remain(execbuf)) {
-			ret |= bfs_exec_flush(execbuf);
-		}
+		ret |= bfs_exec_flush_all(execbuf);
 		bfs_exec_closewd(execbuf, ftwbuf);
 	} else if (bfs_exec_would_overflow(execbuf, arg)) {
 		ret |= bfs_exec_flush(execbuf);
@@ -678,9 +696,7 @@ int bfs_exec(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 int bfs_exec_finish(struct bfs_exec *execbuf) {
 	if (execbuf->flags & BFS_EXEC_MULTI) {
 		bfs_exec_debug(execbuf, "Finishing execution, executing buffered command\n");
-		while (bfs_exec_args_remain(execbuf)) {
-			execbuf->ret |= bfs_exec_flush(execbuf);
-		}
+		execbuf->ret |= bfs_exec_flush_all(execbuf);
 		if (execbuf->ret != 0) {
 			bfs_exec_debug(execbuf, "One or more executions of '%s' failed\n", execbuf->argv[0]);
 		}
-- 
2.43.0


From d344dbb8d84bc002e59707d64a054b6e5e190929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:23 +0000
Subject: [PATCH 25/42] fix: don't assert after failing to open -execdir ...
 +'s working directory

---
 src/exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 71a01e2..533f94b 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -661,6 +661,9 @@ static int bfs_exec_multi(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if ((execbuf->flags & BFS_EXEC_CHDIR) && execbuf->wd_fd < 0) {
 		if (bfs_exec_openwd(execbuf, ftwbuf) != 0) {
 			ret = -1;
+			int error = errno;
+			bfs_exec_closewd(execbuf, ftwbuf);
+			errno = error;
 			goto out_arg;
 		}
 	}
-- 
2.43.0


From 6044abbd56c7244a57bb6e33f3f365579fc74a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:30 +0000
Subject: [PATCH 26/42] fix: keep ignored signals ignored in executed commands

If a signal that bfs handles (SIGUSR1, or any fatal one for -status or
colored terminal output) was originally ignored, posix_spawn()ed commands
got the default action instead of ignoring it.
---
 src/sighook.c | 21 +++++++++++++++++++++
 src/sighook.h |  6 ++++++
 src/xspawn.c  |  3 ++-
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index a87bed5..ad1100c 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -690,3 +690,24 @@ int sigreset(void) {
 
 	return ret;
 }
+
+/** Check if a signal was ignored before we handled it. */
+static bool was_ignored(const struct sigsave *save) {
+	return !(save->action.sa_flags & SA_SIGINFO) && save->action.sa_handler == SIG_IGN;
+}
+
+bool sigignored(void) {
+	if (!load(&initialized, acquire)) {
+		return false;
+	}
+
+	bool ret = false;
+
+	for_rcu (struct sigsave, save, &saved) {
+		if (was_ignored(save)) {
+			ret = true;
+		}
+	}
+
+	return ret;
+}
diff --git a/src/sighook.h b/src/sighook.h
index 7149229..b21bad7 100644
--- a/src/sighook.h
+++ b/src/sighook.h
@@ -80,4 +80,10 @@ void sigunhook(struct sighook *hook);
  */
 int sigreset(void);
 
+/**
+ * Check whether any of the signals we handle was originally ignored, so that
+ * child processes need sigreset() to ignore it too.
+ */
+bool sigignored(void);
+
 #endif // BFS_SIGHOOK_H
diff --git a/src/xspawn.c b/src/xspawn.c
index 1abae47..8ffe07e 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -75,7 +75,8 @@ int bfs_spawn_init(struct bfs_spawn *ctx) {
 	SLIST_INIT(ctx);
 
 #if BFS_POSIX_SPAWN >= 0
-	if (sysoption(SPAWN) > 0) {
+	// posix_spawn() can't restore ignored signals
+	if (sysoption(SPAWN) > 0 && !sigignored()) {
 		ctx->flags |= BFS_SPAWN_USE_POSIX;
 
 		errno = posix_spawn_file_actions_init(&ctx->actions);
-- 
2.43.0


From 2b387fe133c9b7460412973f2fa1040d56cb461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:22 +0000
Subject: [PATCH 27/42] fix: blame the file, not the output, when an action
 fails to examine it

-printf, -fprintf, etc. reported errors like ENOENT from examining the
file as if they were errors writing to the output stream, even with
-ignore_readdir_race.
---
 src/eval.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index eaadaf9..ab41dfb 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -112,6 +112,12 @@ static void eval_report_error(struct bfs_eval *state) {
  * Report an I/O error that occurs during evaluation.
  */
 static void eval_io_error(const struct bfs_expr *expr, struct bfs_eval *state) {
+	if (!ferror(expr->cfile->file)) {
+		// The output is fine, so we failed to examine the file itself
+		eval_report_error(state);
+		return;
+	}
+
 	if (expr->path) {
 		eval_error(state, "'%s': %s.\n", expr->path, errstr());
 	} else {
-- 
2.43.0


From e91dd8f5745d158789c6e1c4c3e181c2883d3404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:23 +0000
Subject: [PATCH 28/42] fix: don't use a stale errno for %Y on broken links
 with -L

bftw_type() returned BFS_ERROR without setting errno for broken symbolic
links that we tried to follow, so -L -printf %Y could print '?' instead of
'N' or report an unrelated error.
---
 src/bftw.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index d4fa675..a02c627 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -177,8 +177,6 @@ enum bfs_type bftw_type(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
 	} else {
 		if (ftwbuf->type != BFS_LNK) {
 			return ftwbuf->type;
-		} else if (ftwbuf->stat_flags & BFS_STAT_TRYFOLLOW) {
-			return BFS_ERROR;
 		}
 	}
 
-- 
2.43.0


From 5a60e62d8bb33c91912eb600fc3f0d991a394333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:40 +0000
Subject: [PATCH 29/42] fix: skip empty chunks in LS_COLORS

---
 src/color.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/color.c b/src/color.c
index 588dbac..165716a 100644
--- a/src/color.c
+++ b/src/color.c
@@ -560,7 +560,10 @@ static int parse_gnu_ls_colors(struct colors *colors, const char *ls_colors) {
 	dchar *value = NULL;
 
 	for (const char *chunk = ls_colors, *next; chunk; chunk = next) {
-		if (chunk[0] == '*') {
+		if (chunk[0] == ':') {
+			// Skip empty chunks, like GNU ls
+			next = chunk + 1;
+		} else if (chunk[0] == '*') {
 			if (unescape(&key, chunk + 1, '=', &next) != 0) {
 				goto fail;
 			}
-- 
2.43.0


From fbda166af27a1a66ce21ee9701edca5c15912a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:07 +0000
Subject: [PATCH 30/42] fix: report errors reading -files0-from's file

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 0ef3c0a..e051fcb 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3571,6 +3571,7 @@ static int parse_files0_roots(struct bfs_parser *parser) {
 		char *path = xgetdelim(file, '\0');
 		if (!path) {
 			if (errno) {
+				parse_expr_error(parser, expr, "%s.\n", errstr());
 				goto fail;
 			} else {
 				break;
-- 
2.43.0


From 503fdb9eb15b7fad49063039d5afe45fd7627f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:29 +0000
Subject: [PATCH 31/42] fix: don't leak memory for every file checked by
 -context

---
 src/fsade.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fsade.c b/src/fsade.c
index dfdf125..b339ea1 100644
--- a/src/fsade.c
+++ b/src/fsade.c
@@ -501,6 +501,10 @@ char *bfs_getfilecon(const struct BFTW *ftwbuf) {
 		ret = getfilecon(path, &con);
 	}
 
+	int error = errno;
+	free_fake_at(ftwbuf, path);
+	errno = error;
+
 	if (ret >= 0) {
 		return con;
 	} else {
-- 
2.43.0


From eeac973a9f2e91935925f8b451ec6c748ba6a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 32/42] fix: don't drop queued I/O requests popped along with
 the stop sentinel

If the pending queue wraps around while a thread is stalled, another thread
can pop IOQ_STOP in the same batch as (and ahead of) earlier requests.  Those
requests were then dropped, so nobody ever answered them and the main thread
waited for them forever.
---
 src/ioq.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ioq.c b/src/ioq.c
index 1efedd7..b0e817d 100644
--- a/src/ioq.c
+++ b/src/ioq.c
@@ -897,6 +897,12 @@ static bool ioq_ring_prep(struct ioq_ring_state *state) {
 		if (ent == &IOQ_STOP) {
 			ioqq_push(ioq->pending, ent);
 			state->stop = true;
+			// IOQ_STOP can be popped ahead of earlier requests if
+			// the queue wraps around, so don't drop them
+			while (!ioq_batch_empty(&pending)) {
+				ent = ioq_batch_pop(ioq->pending, &pending, false);
+				ioq_prep_sqe(state, ent);
+			}
 			break;
 		} else if (ent) {
 			ioq_prep_sqe(state, ent);
@@ -945,7 +951,10 @@ static void ioq_sync_work(struct ioq_thread *thread) {
 	ioq_batch_reset(&pending);
 	ioq_batch_reset(&ready);
 
-	while (true) {
+	// IOQ_STOP can be popped ahead of earlier requests if the queue wraps
+	// around, so finish the whole batch before stopping
+	bool stop = false;
+	while (!stop || !ioq_batch_empty(&pending)) {
 		if (ioq_batch_empty(&pending)) {
 			ioq_batch_flush(ioq->ready, &ready);
 		}
@@ -953,7 +962,8 @@ static void ioq_sync_work(struct ioq_thread *thread) {
 		struct ioq_ent *ent = ioq_batch_pop(ioq->pending, &pending, true);
 		if (ent == &IOQ_STOP) {
 			ioqq_push(ioq->pending, ent);
-			break;
+			stop = true;
+			continue;
 		}
 
 		if (!ioq_check_cancel(ioq, ent)) {
-- 
2.43.0


From 6ae251496f9cf4d2cb4523321ce82abcd5054d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 33/42] fix: reserve file descriptors for user and group
 lookups in -ls and -printf

-nouser and -nogroup already reserve some, but -ls, -fls, and -printf's
%u and %g didn't, so when the directory cache filled up the descriptor
table, they silently printed numeric IDs instead of names.
---
 src/parse.c  | 6 ++++++
 src/printf.c | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index e051fcb..2aaf083 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1425,6 +1425,9 @@ static struct bfs_expr *parse_fls(struct bfs_parser *parser, int arg1, int arg2)
 		return NULL;
 	}
 
+	// Who knows how many FDs getpwuid_r() and getgrgid_r() need?
+	expr->ephemeral_fds = 3;
+
 	if (expr_open(parser, expr, expr->argv[1]) != 0) {
 		return NULL;
 	}
@@ -1671,6 +1674,9 @@ static struct bfs_expr *parse_ls(struct bfs_parser *parser, int arg1, int arg2)
 		return NULL;
 	}
 
+	// Who knows how many FDs getpwuid_r() and getgrgid_r() need?
+	expr->ephemeral_fds = 3;
+
 	init_print_expr(parser, expr);
 	return expr;
 }
diff --git a/src/printf.c b/src/printf.c
index b5cb4a6..139805a 100644
--- a/src/printf.c
+++ b/src/printf.c
@@ -780,6 +780,8 @@ int bfs_printf_parse(const struct bfs_ctx *ctx, struct bfs_expr *expr, const cha
 			case 'g':
 				fmt.fn = bfs_printf_g;
 				fmt.ptr = ctx->groups;
+				// Who knows how many FDs getgrgid_r() needs?
+				expr->ephemeral_fds = 3;
 				break;
 			case 'G':
 				fmt.fn = bfs_printf_G;
@@ -829,6 +831,8 @@ int bfs_printf_parse(const struct bfs_ctx *ctx, struct bfs_expr *expr, const cha
 			case 'u':
 				fmt.fn = bfs_printf_u;
 				fmt.ptr = ctx->users;
+				// Who knows how many FDs getpwuid_r() needs?
+				expr->ephemeral_fds = 3;
 				break;
 			case 'U':
 				fmt.fn = bfs_printf_U;
-- 
2.43.0


From ba40c6a4b6e9eca4c28526cb7af6b368da879ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:09 +0000
Subject: [PATCH 34/42] fix: don't silently skip directories that fail to open
 in a later ids/eds pass

Errors were only reported by the first pass that should see them, so if
a directory could be read by one pass but not by a later one, everything
below it was skipped without any error.
---
 src/bftw.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index a02c627..21556ca 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2173,6 +2173,8 @@ struct bftw_ids_state {
 	struct trie pruned;
 	/** The set of non-directory roots we're done with. */
 	struct trie done;
+	/** The set of paths we've reported errors for. */
+	struct trie failed;
 	/** Whether the bottom has been found. */
 	bool bottom;
 };
@@ -2196,10 +2198,14 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		if (again && ftwbuf->depth == 0 && bftw_ids_done(state, ftwbuf->path)) {
 			// The callback may have deleted it
 			return BFTW_PRUNE;
-		} else if (ftwbuf->depth + 1 >= state->min_depth) {
-			return state->delegate(ftwbuf, state->ptr);
-		} else {
+		} else if (ftwbuf->depth + 1 < state->min_depth && trie_find_str(&state->failed, ftwbuf->path)) {
+			// An earlier pass already reported this
 			return BFTW_PRUNE;
+		} else if (!trie_insert_str(&state->failed, ftwbuf->path)) {
+			state->nested.error = errno;
+			return BFTW_STOP;
+		} else {
+			return state->delegate(ftwbuf, state->ptr);
 		}
 	}
 
@@ -2263,6 +2269,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->max_depth = 1;
 	trie_init(&state->pruned);
 	trie_init(&state->done);
+	trie_init(&state->failed);
 	state->bottom = false;
 
 	struct bftw_args ids_args = *args;
@@ -2274,6 +2281,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 
 /** Finish an iterative deepening search. */
 static int bftw_ids_destroy(struct bftw_ids_state *state) {
+	trie_destroy(&state->failed);
 	trie_destroy(&state->done);
 	trie_destroy(&state->pruned);
 	return bftw_state_destroy(&state->nested);
-- 
2.43.0


From 77fab6a620d68de1e666f7d6a841b3c5e548f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:34 +0000
Subject: [PATCH 35/42] fix: report memory allocation failures while parsing
 -printf

---
 src/printf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/printf.c b/src/printf.c
index 139805a..d147c6e 100644
--- a/src/printf.c
+++ b/src/printf.c
@@ -688,6 +688,7 @@ int bfs_printf_parse(const struct bfs_ctx *ctx, struct bfs_expr *expr, const cha
 				.str = dstralloc(2),
 			};
 			if (!fmt.str) {
+				bfs_perror(ctx, "dstralloc()");
 				goto fmt_error;
 			}
 			if (dstrapp(&fmt.str, c) != 0) {
-- 
2.43.0


From d5603318f3f1a3564dc98ffbe177972dc06db97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:45 +0000
Subject: [PATCH 36/42] fix: don't match -nouser/-nogroup when the lookup fails

If the user or group database can't be consulted (out of memory or file
descriptors, for example), an error was reported, but the file was still
treated as having no owner.
---
 src/eval.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index ab41dfb..dc5ec35 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -378,8 +378,9 @@ bool eval_nogroup(const struct bfs_expr *expr, struct bfs_eval *state) {
 	}
 
 	const struct group *grp = bfs_getgrgid(state->ctx->groups, statbuf->gid);
-	if (errno != 0) {
+	if (!grp && errno != 0) {
 		eval_report_error(state);
+		return false;
 	}
 	return grp == NULL;
 }
@@ -394,8 +395,9 @@ bool eval_nouser(const struct bfs_expr *expr, struct bfs_eval *state) {
 	}
 
 	const struct passwd *pwd = bfs_getpwuid(state->ctx->users, statbuf->uid);
-	if (errno != 0) {
+	if (!pwd && errno != 0) {
 		eval_report_error(state);
+		return false;
 	}
 	return pwd == NULL;
 }
-- 
2.43.0


From 0553ab6dcc13ab01e66ba0462a66b8b5a979a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:10 +0000
Subject: [PATCH 37/42] fix: don't assume that -empty gives the same answer
 twice

Unlike the other predicates, -empty examines the directory every time
it's evaluated, so its result may change because of errors or concurrent
modifications.  Assuming otherwise led to failed assertions.
---
 src/opt.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 66448e5..30b979c 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -90,8 +90,6 @@ enum pred_type {
 	ACL_PRED,
 	/** -capable */
 	CAPABLE_PRED,
-	/** -empty */
-	EMPTY_PRED,
 	/** -hidden */
 	HIDDEN_PRED,
 	/** -nogroup */
@@ -113,7 +111,6 @@ static const char *const pred_names[] = {
 	[EXECUTABLE_PRED] = "-executable",
 	[ACL_PRED] = "-acl",
 	[CAPABLE_PRED] = "-capable",
-	[EMPTY_PRED] = "-empty",
 	[HIDDEN_PRED] = "-hidden",
 	[NOGROUP_PRED] = "-nogroup",
 	[NOUSER_PRED] = "-nouser",
@@ -1916,7 +1913,6 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 	} preds[] = {
 		{eval_acl,         ACL_PRED},
 		{eval_capable, CAPABLE_PRED},
-		{eval_empty,     EMPTY_PRED},
 		{eval_hidden,   HIDDEN_PRED},
 		{eval_nogroup, NOGROUP_PRED},
 		{eval_nouser,   NOUSER_PRED},
-- 
2.43.0


From 7faceb070f48e26915d4328d1f85ebdb02390d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:10 +0000
Subject: [PATCH 38/42] fix: visit mount points with -xdev -depth

With -depth, directories are handled on the BFTW_POST visit, but -xdev
pruned mount points before it happened, so they were never seen at all.
---
 src/bftw.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index 21556ca..7b73e6c 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -1804,6 +1804,14 @@ static enum bftw_action bftw_call_back(struct bftw_state *state, const char *nam
 		} else if (state->flags & BFTW_PRUNE_MOUNTS) {
 			if (bftw_is_mount(state, name)) {
 				ret = BFTW_PRUNE;
+
+				// Still do the BFTW_POST visit for the mount point itself
+				if (state->flags & BFTW_POST_ORDER) {
+					state->ftwbuf.visit = BFTW_POST;
+					if (state->callback(ftwbuf, state->ptr) == BFTW_STOP) {
+						ret = BFTW_STOP;
+					}
+				}
 			}
 		}
 		break;
-- 
2.43.0


From 4d4192c8978c159973910ebb0089566564f91377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:38 +0000
Subject: [PATCH 39/42] fix: don't confuse overlapping roots with -S {ids,eds}

The same path can be both a root and a descendent of another root.  A
descendent that was pruned (e.g. due to -maxdepth) also pruned the root.
---
 src/bftw.c | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index 7b73e6c..9f187c3 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2177,8 +2177,10 @@ struct bftw_ids_state {
 	size_t min_depth;
 	/** The current maximum depth (exclusive). */
 	size_t max_depth;
-	/** The set of pruned paths. */
+	/** The set of pruned paths, by depth. */
 	struct trie pruned;
+	/** Scratch space for trie keys. */
+	dchar *key;
 	/** The set of non-directory roots we're done with. */
 	struct trie done;
 	/** The set of paths we've reported errors for. */
@@ -2187,9 +2189,15 @@ struct bftw_ids_state {
 	bool bottom;
 };
 
-/** Check if we're already done with a root. */
-static bool bftw_ids_done(const struct bftw_ids_state *state, const char *path) {
-	return trie_find_str(&state->done, path) || trie_find_str(&state->pruned, path);
+/** Get the trie key for a pruned file. */
+static const char *bftw_ids_key(struct bftw_ids_state *state, const struct BFTW *ftwbuf) {
+	// The same path can be reached from overlapping roots, but only at different depths
+	if (dstresize(&state->key, 0) == 0
+	    && dstrcatf(&state->key, "%zu/%s", ftwbuf->depth, ftwbuf->path) == 0) {
+		return state->key;
+	} else {
+		return NULL;
+	}
 }
 
 /** Iterative deepening callback function. */
@@ -2201,9 +2209,18 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		mutbuf->visit = state->visit;
 	}
 
+	const char *key = bftw_ids_key(state, ftwbuf);
+	if (!key) {
+		state->nested.error = errno;
+		return BFTW_STOP;
+	}
+
+	bool pruned = trie_find_str(&state->pruned, key);
+
 	if (ftwbuf->type == BFS_ERROR) {
 		bool again = state->min_depth > 0 || state->visit == BFTW_POST;
-		if (again && ftwbuf->depth == 0 && bftw_ids_done(state, ftwbuf->path)) {
+		bool done = pruned || trie_find_str(&state->done, ftwbuf->path);
+		if (again && ftwbuf->depth == 0 && done) {
 			// The callback may have deleted it
 			return BFTW_PRUNE;
 		} else if (ftwbuf->depth + 1 < state->min_depth && trie_find_str(&state->failed, ftwbuf->path)) {
@@ -2218,15 +2235,9 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	}
 
 	if (ftwbuf->depth < state->min_depth) {
-		if (trie_find_str(&state->pruned, ftwbuf->path)) {
-			return BFTW_PRUNE;
-		} else {
-			return BFTW_CONTINUE;
-		}
-	} else if (state->visit == BFTW_POST) {
-		if (trie_find_str(&state->pruned, ftwbuf->path)) {
-			return BFTW_PRUNE;
-		}
+		return pruned ? BFTW_PRUNE : BFTW_CONTINUE;
+	} else if (state->visit == BFTW_POST && pruned) {
+		return BFTW_PRUNE;
 	}
 
 	enum bftw_action ret = BFTW_CONTINUE;
@@ -2252,7 +2263,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	case BFTW_PRUNE:
 		// Remember not to do the BFTW_POST visit either
 		if (ftwbuf->type == BFS_DIR || state->post_all) {
-			if (!trie_insert_str(&state->pruned, ftwbuf->path)) {
+			if (!trie_insert_str(&state->pruned, key)) {
 				state->nested.error = errno;
 				ret = BFTW_STOP;
 			}
@@ -2276,6 +2287,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->min_depth = 0;
 	state->max_depth = 1;
 	trie_init(&state->pruned);
+	state->key = NULL;
 	trie_init(&state->done);
 	trie_init(&state->failed);
 	state->bottom = false;
@@ -2291,6 +2303,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 static int bftw_ids_destroy(struct bftw_ids_state *state) {
 	trie_destroy(&state->failed);
 	trie_destroy(&state->done);
+	dstrfree(state->key);
 	trie_destroy(&state->pruned);
 	return bftw_state_destroy(&state->nested);
 }
-- 
2.43.0


From 6cb58fec662e24f1ddd015768ece597a482f87a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:25 +0000
Subject: [PATCH 40/42] fix: don't skip repeated roots with -S {ids,eds} -depth
 -prune

-prune has no effect with -depth, but the BFTW_POST visit still recorded
the path as pruned, which suppressed later visits from the same root.
---
 src/bftw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bftw.c b/src/bftw.c
index 9f187c3..7eae029 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2262,7 +2262,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 
 	case BFTW_PRUNE:
 		// Remember not to do the BFTW_POST visit either
-		if (ftwbuf->type == BFS_DIR || state->post_all) {
+		if (state->visit == BFTW_PRE && (ftwbuf->type == BFS_DIR || state->post_all)) {
 			if (!trie_insert_str(&state->pruned, key)) {
 				state->nested.error = errno;
 				ret = BFTW_STOP;
-- 
2.43.0


From 7828ff015a741b1b14367b94bdb4621cab278bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 41/42] fix: don't crash if SIGALRM and SIGUSR1 arrive together

If the timer expired and the user hid the status bar before the next
file was visited, eval_status() was called with a NULL bar.
---
 src/eval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index dc5ec35..4f974cd 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -1498,7 +1498,8 @@ static enum bftw_action eval_callback(const struct BFTW *ftwbuf, void *ptr) {
 		}
 	}
 
-	if (exchange(&args->alrm_flag, false, relaxed)) {
+	// The bar may have been hidden after SIGALRM was delivered
+	if (exchange(&args->alrm_flag, false, relaxed) && args->bar) {
 		eval_status(&state, args->bar, args->count);
 	}
 
-- 
2.43.0


From a1edeb2fc644d817f54f47b2adcec9b2368e1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:48 +0000
Subject: [PATCH 42/42] fix: keep the other signal hooks when the last one is
 removed

Removing the last node of an rcu_list that still had other nodes reset the
list's tail to its head, so the next append dropped all of them.  Showing the
status line, hiding it, and showing it again (SIGUSR1) thus forgot to reset
the terminal's colours when interrupted.
---
 src/sighook.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index ad1100c..c7f6ecb 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -290,7 +290,7 @@ static void rcu_list_remove(struct rcu_list *list, struct rcu_node *node) {
 	if (next) {
 		next->self = node->self;
 	} else {
-		list->tail = &list->head;
+		list->tail = node->self;
 	}
 	rcu_destroy(&node->next);
 }
-- 
2.43.0

