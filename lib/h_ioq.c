/* History checker for the asynchronous I/O queue.
 * usage: h_ioq DIR SEED STEPS   (DIR: an existing empty scratch directory)
 * Every request accepted is recorded; every response must match exactly one
 * outstanding request, with the result that the same operation gives
 * synchronously.  Faults: delays around the locks and operations, transient
 * errors and short submissions from the ring, ring/thread creation failure. */
#include "alloc.h"
#include "bfstd.h"
#include "dir.h"
#include "ioq.h"
#include "stat.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#if BFS_WITH_LIBURING
#  include <liburing.h>
#endif

static uint64_t S;
static uint64_t mix(uint64_t *s) {
	*s += 0x9E3779B97F4A7C15ULL;
	uint64_t z = *s;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
static size_t below(size_t n) { return n ? mix(&S) % n : 0; }
static _Thread_local uint64_t TS;
static uint64_t seed0;
static size_t tbelow(size_t n) {
	if (!TS) { TS = seed0 ^ (uint64_t)pthread_self() * 0x2545F4914F6CDD1DULL ^ 1; }
	return mix(&TS) % n;
}

static int p_delay, p_short, p_err, fail_thread, fail_ring;   /* chances in 1000; -1: off */
static long n_short, n_err, n_delay;
static void delay(void) {
	if (p_delay && tbelow(1000) < (size_t)p_delay) {
		__atomic_fetch_add(&n_delay, 1, __ATOMIC_RELAXED);
		size_t k = tbelow(4);
		if (k == 0) sched_yield();
		else { struct timespec ts = {0, k == 1 ? 1000 : (long)tbelow(k == 2 ? 60000 : 400000)}; nanosleep(&ts, NULL); }
	}
}
#define W(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { delay(); ret r = __real_##name args; int e = errno; delay(); errno = e; return r; }
W(int, pthread_mutex_lock, (pthread_mutex_t *m), (m))
W(int, pthread_mutex_unlock, (pthread_mutex_t *m), (m))
W(int, pthread_cond_broadcast, (pthread_cond_t *c), (c))
W(int, pthread_cond_wait, (pthread_cond_t *c, pthread_mutex_t *m), (c, m))
W(int, bfs_stat, (int fd, const char *p, enum bfs_stat_flags f, struct bfs_stat *b), (fd, p, f, b))
W(int, bfs_opendir, (struct bfs_dir *d, int fd, const char *p, enum bfs_dir_flags f), (d, fd, p, f))
W(int, bfs_closedir, (struct bfs_dir *d), (d))
W(int, bfs_polldir, (struct bfs_dir *d), (d))
W(int, xclose, (int fd), (fd))

int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p);
static int nthr;
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) {
	if (nthr++ == fail_thread) return EAGAIN;
	return __real_pthread_create(t, a, f, p);
}
#if BFS_WITH_LIBURING
static int nring;
int __real_io_uring_queue_init_params(unsigned n, struct io_uring *r, struct io_uring_params *p);
int __wrap_io_uring_queue_init_params(unsigned n, struct io_uring *r, struct io_uring_params *p) {
	if (fail_ring >= 0 && n > 2 && nring++ >= fail_ring) return -ENOMEM;
	return __real_io_uring_queue_init_params(n, r, p);
}
int __real_io_uring_submit_and_wait(struct io_uring *r, unsigned w);
int __wrap_io_uring_submit_and_wait(struct io_uring *r, unsigned w) {
	delay();
	if (p_err && tbelow(1000) < (size_t)p_err) {
		__atomic_fetch_add(&n_err, 1, __ATOMIC_RELAXED);
		static const int errs[] = {-EINTR, -EAGAIN, -EBUSY};
		return errs[tbelow(3)];
	}
	unsigned n = r->sq.sqe_tail - r->sq.sqe_head;
	if (n > 1 && p_short && tbelow(1000) < (size_t)p_short) {
		/* the kernel takes only some of the requests */
		__atomic_fetch_add(&n_short, 1, __ATOMIC_RELAXED);
		unsigned tail = r->sq.sqe_tail, k = 1 + tbelow(n - 1);
		r->sq.sqe_tail = r->sq.sqe_head + k;
		int ret = __real_io_uring_submit_and_wait(r, 0);
		r->sq.sqe_tail = tail;
		return ret;
	}
	return __real_io_uring_submit_and_wait(r, w);
}
#endif

static long step;
#define BAD(...) do { printf("MISMATCH step %ld line %d: ", step, __LINE__); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)

enum state { FREE, OUT, DONE };
struct req {
	enum state state;
	enum ioq_op op;
	int expect;             /* result when not interrupted */
	bool checkst;
	struct stat st;
	struct bfs_stat buf;
	struct bfs_dir *dir;
	int fd;
	ino_t fdino;
	const char *path;
	char *pathcopy;
	int nents;
	bool after_cancel;
};
static struct req *R;
static size_t nreq, outstanding;
static bool cancelled;
static long n_op[8], n_intr, n_pop, n_null, n_refused, n_fail;

/* directories currently open and owned by us */
static struct bfs_dir *open_dirs[4096];
static size_t n_open;

static int nfds(void) {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}
static int count_ents(const char *path) {
	DIR *d = opendir(path);
	if (!d) return -1;
	int n = 0;
	while (readdir(d)) ++n;
	closedir(d);
	return n - 2;
}

#define NPATH 26
static char paths[NPATH][300];
static int dfd;

static struct req *newreq(enum ioq_op op) {
	struct req *r = &R[nreq];
	memset(r, 0, sizeof *r);
	r->op = op;
	r->fd = -1;
	return r;
}

static void respond(struct ioq *ioq, struct ioq_ent *ent) {
	size_t id = (size_t)ent->ptr;
	if (!id || id > nreq) BAD("response with an unknown identity %zu", id);
	struct req *r = &R[id - 1];
	if (r->state != OUT) BAD("request %zu answered %s", id, r->state == DONE ? "twice" : "though not submitted");
	if (ent->op != r->op) BAD("request %zu: operation changed from %d to %d", id, r->op, ent->op);
	r->state = DONE;
	--outstanding;
	++n_pop;
	bool intr = ent->result == -EINTR;
	if (intr) {
		++n_intr;
		if (!cancelled) BAD("request %zu was interrupted without cancellation", id);
		if (r->op == IOQ_CLOSE || r->op == IOQ_CLOSEDIR) BAD("close request %zu was interrupted", id);
	}
	switch (r->op) {
	case IOQ_NOP:
		if (!intr && ent->result != 0) BAD("nop result %d", ent->result);
		break;
	case IOQ_CLOSE:
		if (ent->close.fd != r->fd) BAD("close fd changed");
		if (ent->result != r->expect) BAD("close result %d, not %d", ent->result, r->expect);
		break;
	case IOQ_CLOSEDIR:
		if (ent->closedir.dir != r->dir) BAD("closedir identity");
		if (ent->result != 0) BAD("closedir result %d", ent->result);
		free(r->dir);
		break;
	case IOQ_OPENDIR:
		if (ent->opendir.dir != r->dir || ent->opendir.path != r->pathcopy) BAD("opendir identity");
		if (intr) { free(r->dir); break; }
		if ((ent->result < 0 ? ent->result : 0) != r->expect) BAD("opendir(%s) gave %d, not %d", r->path, ent->result, r->expect);
		if (ent->result < 0) { ++n_fail; free(r->dir); break; }
		{
			struct stat sb;
			if (fstat(bfs_dirfd(r->dir), &sb) != 0 || sb.st_ino != r->st.st_ino) BAD("opendir(%s) opened something else", r->path);
			if (!(fcntl(bfs_dirfd(r->dir), F_GETFD) & FD_CLOEXEC)) BAD("opendir(%s) is inherited across exec", r->path);
			if (below(2)) {
				int n = 0, ret;
				struct bfs_dirent de;
				while ((ret = bfs_readdir(r->dir, &de)) > 0) ++n;
				if (ret < 0 || n != r->nents) BAD("opendir(%s): %d entries, not %d", r->path, n, r->nents);
			}
			if (n_open < 1000) open_dirs[n_open++] = r->dir;
			else { bfs_closedir(r->dir); free(r->dir); }
		}
		break;
	case IOQ_STAT:
		if (ent->stat.buf != &r->buf || ent->stat.path != r->pathcopy) BAD("stat identity");
		if (intr) break;
		if ((ent->result < 0 ? ent->result : 0) != r->expect) BAD("stat(%s) gave %d, not %d", r->path, ent->result, r->expect);
		if (ent->result < 0) { ++n_fail; break; }
		if (r->buf.ino != r->st.st_ino || r->buf.dev != r->st.st_dev || r->buf.mode != r->st.st_mode || r->buf.size != r->st.st_size
		    || r->buf.uid != r->st.st_uid || r->buf.nlink != r->st.st_nlink
		    || r->buf.mtime.tv_sec != r->st.st_mtim.tv_sec || r->buf.mtime.tv_nsec != r->st.st_mtim.tv_nsec)
			BAD("stat(%s) describes another file", r->path);
		break;
	}
	free(r->pathcopy);
	ioq_free(ioq, ent);
}

static void one_run(const char *top, long steps) {
	static const size_t depths[] = {1, 2, 3, 7, 8, 9, 16, 63, 64, 100, 256, 1024, 4096};
	size_t depth = depths[below(13)], nthreads = 1 + below(below(3) ? 4 : 12);
	p_delay = (int[]){0, 0, 5, 60, 300}[below(5)];
	p_short = (int[]){0, 0, 100, 600}[below(4)];
	p_err = (int[]){0, 0, 50, 400}[below(4)];
	fail_thread = below(12) ? -1 : (int)below(nthreads);
	fail_ring = below(4) ? -1 : (int)below(nthreads);
	nthr = 0;
	cancelled = false;
	nreq = outstanding = n_open = 0;
#if BFS_WITH_LIBURING
	nring = 0;
#endif
	int fds = nfds();
	R = calloc(steps + 1, sizeof *R);
	struct ioq *ioq = ioq_create(depth, nthreads);
	if (!ioq) {
		if (fail_thread < 0) BAD("ioq_create failed: %d", errno);
		if (errno != EAGAIN) BAD("ioq_create reported %d instead of EAGAIN", errno);
#if !__SANITIZE_THREAD__
		if (nfds() != fds) BAD("ioq_create leaks descriptors when it fails");
#endif
		free(R);
		return;
	}
	if (fail_thread >= 0) BAD("ioq_create succeeded without all its threads");
	int style = below(4);   /* batchy, one at a time, full pipe, random */
	for (step = 0; step < steps; ++step) {
		if (ioq_capacity(ioq) != depth - outstanding) BAD("capacity %zu with %zu of %zu outstanding", ioq_capacity(ioq), outstanding, depth);
		int what = below(100);
		bool push = style == 0 ? (step / 37) % 2 : style == 1 ? outstanding == 0 : style == 2 ? outstanding < depth : what < 60;
		if (push) {
			struct req *r;
			int ret;
			errno = 0;
			switch (below(8)) {
			case 0: case 1:
				r = newreq(IOQ_NOP);
				ret = ioq_nop(ioq, below(2) ? IOQ_NOP_LIGHT : IOQ_NOP_HEAVY, (void *)(nreq + 1));
				break;
			case 2:
				r = newreq(IOQ_CLOSE);
				if (outstanding > 1500) continue;
				r->fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
				if (r->fd < 0) continue;
				ret = ioq_close(ioq, r->fd, (void *)(nreq + 1));
				if (ret != 0 && r->expect == 0) close(r->fd);
				break;
			case 3: case 4: {
				int i = below(NPATH);
				if (outstanding > 1500) continue;
				r = newreq(IOQ_OPENDIR);
				r->path = paths[i];
				bool rel = below(2);
				r->pathcopy = strdup(rel ? paths[i] + strlen(top) + 1 : paths[i]);
				int fd = openat(rel ? dfd : AT_FDCWD, r->pathcopy, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
				if (fd < 0) r->expect = -errno;
				else { fstat(fd, &r->st); r->nents = count_ents(paths[i]); close(fd); }
				r->dir = bfs_allocdir();
				ret = ioq_opendir(ioq, r->dir, rel ? dfd : AT_FDCWD, r->pathcopy, 0, (void *)(nreq + 1));
				if (ret != 0) { int e = errno; free(r->dir); free(r->pathcopy); errno = e; }
				break; }
			case 5:
				if (n_open) {
					r = newreq(IOQ_CLOSEDIR);
					size_t i = below(n_open);
					r->dir = open_dirs[i];
					ret = ioq_closedir(ioq, r->dir, (void *)(nreq + 1));
					if (ret == 0) open_dirs[i] = open_dirs[--n_open];
					break;
				}
				continue;
			default: {
				int i = below(NPATH);
				r = newreq(IOQ_STAT);
				r->path = paths[i];
				bool rel = below(2), follow = below(2);
				r->pathcopy = strdup(rel ? paths[i] + strlen(top) + 1 : paths[i]);
				if (fstatat(rel ? dfd : AT_FDCWD, r->pathcopy, &r->st, follow ? 0 : AT_SYMLINK_NOFOLLOW) != 0) r->expect = -errno;
				ret = ioq_stat(ioq, rel ? dfd : AT_FDCWD, r->pathcopy, follow ? BFS_STAT_FOLLOW : BFS_STAT_NOFOLLOW, &r->buf, (void *)(nreq + 1));
				if (ret != 0) { int e = errno; free(r->pathcopy); errno = e; }
				break; }
			}
			bool room = outstanding < depth;
			if (ret == 0) {
				if (cancelled) BAD("a request was accepted after cancellation");
				if (!room) BAD("a request beyond the capacity %zu was accepted", depth);
				r->state = OUT;
				++nreq; ++outstanding; ++n_op[r->op];
			} else {
				++n_refused;
				if (!cancelled && room) BAD("request refused with %zu of %zu outstanding (errno %d)", outstanding, depth, errno);
				if (errno != (cancelled ? EINTR : EAGAIN)) BAD("refused with errno %d", errno);
			}
			if (style == 1 || below(3) == 0) ioq_submit(ioq);
		} else {
			ioq_submit(ioq);
			bool block = below(3) > 0;
			struct ioq_ent *ent = ioq_pop(ioq, block);
			if (ent) respond(ioq, ent);
			else {
				++n_null;
				if (block && outstanding) BAD("a blocking wait gave up with %zu requests outstanding", outstanding);
			}
		}
		if (!cancelled && below(style == 3 ? 150 : 1500) == 0) { ioq_cancel(ioq); cancelled = true; }
		if (cancelled && below(40) == 0) break;
	}
	ioq_submit(ioq);
	if (below(2)) { ioq_cancel(ioq); cancelled = true; }
	while (outstanding) {
		struct ioq_ent *ent = ioq_pop(ioq, true);
		if (!ent) BAD("a blocking wait gave up with %zu requests outstanding", outstanding);
		respond(ioq, ent);
	}
	if (ioq_pop(ioq, true)) BAD("a response to nothing");
	if (ioq_capacity(ioq) != depth) BAD("capacity lost");
	ioq_destroy(ioq);
	for (size_t i = 0; i < n_open; ++i) { bfs_closedir(open_dirs[i]); free(open_dirs[i]); }
	n_open = 0;
	for (size_t i = 0; i < nreq; ++i) if (R[i].state != DONE) BAD("request %zu was never answered", i + 1);
	free(R);
#if !__SANITIZE_THREAD__
	/* (the race detector starts a symbolizer behind our back) */
	if (nfds() != fds) BAD("%d descriptors leaked", nfds() - fds);
#endif
}

int main(int argc, char **argv) {
	const char *top = argv[1];
	seed0 = S = strtoull(argv[2], NULL, 10);
	long steps = atol(argv[3]);
	if (chdir(top) != 0) return 2;
	int n = 0;
	for (int i = 0; i < 8; ++i) {
		snprintf(paths[n], 300, "%s/d%d", top, i); mkdir(paths[n], 0755);
		for (int j = 0; j < i * 9; ++j) { char b[400]; snprintf(b, 400, "%s/f%d", paths[n], j); close(open(b, O_CREAT | O_WRONLY | O_CLOEXEC, 0644)); }
		++n;
	}
	for (int i = 0; i < 6; ++i) { snprintf(paths[n], 300, "%s/f%d", top, i); int fd = open(paths[n++], O_CREAT | O_WRONLY | O_CLOEXEC, 0600); (void)!write(fd, paths[0], i * 3); close(fd); }
	for (int i = 0; i < 3; ++i) { snprintf(paths[n], 300, "%s/l%d", top, i); char b[20]; sprintf(b, "d%d", i); (void)!symlink(b, paths[n++]); }
	for (int i = 0; i < 2; ++i) { snprintf(paths[n], 300, "%s/m%d", top, i); char b[20]; sprintf(b, "f%d", i); (void)!symlink(b, paths[n++]); }
	snprintf(paths[n], 300, "%s/broken", top); (void)!symlink("nowhere", paths[n++]);
	snprintf(paths[n], 300, "%s/loop", top); (void)!symlink("loop", paths[n++]);
	snprintf(paths[n], 300, "%s/missing", top); ++n;
	snprintf(paths[n], 300, "%s/f0/below", top); ++n;
	snprintf(paths[n], 300, "%s/secret", top); mkdir(paths[n++], 0000);
	snprintf(paths[n], 300, "%s/d7/f3", top); ++n;
	if (n != NPATH) { if (n > NPATH) return 2; while (n < NPATH) strcpy(paths[n++], paths[0]); }
	dfd = open(top, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
	int rounds = 3 + below(4);
	for (int i = 0; i < rounds; ++i) one_run(top, steps / rounds + 1);
	printf("ok rounds=%d nop=%ld close=%ld opendir=%ld closedir=%ld stat=%ld responses=%ld failures=%ld interrupted=%ld refused=%ld empty=%ld short=%ld enter_errors=%ld delays=%ld\n",
	       rounds, n_op[IOQ_NOP], n_op[IOQ_CLOSE], n_op[IOQ_OPENDIR], n_op[IOQ_CLOSEDIR], n_op[IOQ_STAT], n_pop, n_fail, n_intr, n_refused, n_null, n_short, n_err, n_delay);
	return 0;
}
