/* LD_PRELOAD monitor and fault injector for bfs.  Active only in processes whose
 * program name starts with "bfs".  Controlled by VP_* environment variables; see
 * shim.py.  Events are appended to a shared file mapping, so no descriptor is used. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <link.h>
#include <execinfo.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <limits.h>
#include <mntent.h>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

static bool active;
static int ready;

/* ---- log ---- */
struct hdr { _Atomic uint64_t off; uint64_t size; };
static struct hdr *logp;

static void vlog(const char *fmt, ...) {
	if (!logp) return;
	int e = errno;
	char buf[9000];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
	uint64_t o = atomic_fetch_add(&logp->off, n);
	if (o + n <= logp->size) memcpy((char *)logp + o, buf, n);
	errno = e;
}

static const char *hex(const char *s, char *buf, size_t size) {
	size_t j = 0;
	if (!s) return "-";
	for (size_t i = 0; s[i] && j + 3 < size; ++i) {
		unsigned char c = s[i];
		buf[j++] = "0123456789abcdef"[c >> 4];
		buf[j++] = "0123456789abcdef"[c & 15];
	}
	buf[j] = 0;
	if (!j) return "";
	return buf;
}

/* ---- faults ---- */
enum op { OP_OPEN, OP_OPENDIR, OP_STAT, OP_GETDENTS, OP_UNLINK, OP_CLOSE, OP_WRITE, OP_MALLOC, OP_READLINK, OP_THREAD, OP_URING, OP_SPAWN, OP_ACCESS, OP_SUBMIT, OP_FCHDIR, OP_WAIT, OP_PIPE, OP_GETPW, OP_MNT, OP_TIMER, OP_DUP, OP_READ, OP_N };
static const char *opname[] = { "open", "opendir", "stat", "getdents", "unlink", "close", "write", "malloc", "readlink", "thread", "uring", "spawn", "access", "submit", "fchdir", "wait", "pipe", "getpw", "mnt", "timer", "dup", "read" };
static _Atomic long opcount[OP_N];
struct fault { int op; long nth; long period; int err; char *name; _Atomic long hits; bool active; };
static struct fault faults[64];
static int nfaults;

static const char *base(const char *p) {
	const char *s = strrchr(p, '/');
	return s ? s + 1 : p;
}

static int fault_one(int op, const char *path) {
	long n = atomic_fetch_add(&opcount[op], 1);
	for (int i = 0; i < nfaults; ++i) {
		struct fault *f = &faults[i];
		if (f->op != op) continue;
		bool hit;
		if (f->name) hit = path && strcmp(base(path), f->name) == 0;
		else if (f->period) hit = n >= f->nth && (n - f->nth) % f->period == 0;
		else hit = n == f->nth;
		if (hit) {
			atomic_fetch_add(&f->hits, 1);
			if (op != OP_MALLOC) { char b[2100]; vlog("F %s %ld %d %s\n", opname[op], n, f->err, hex(path, b, sizeof b)); }
			return f->err;
		}
	}
	return 0;
}

/* ---- delays ---- */
static unsigned delay_prob, delay_max;   /* per mille, microseconds */
static uint64_t delay_seed;
static __thread uint64_t rs;
static _Atomic uint64_t thr_n;
static uint64_t rnd(void) {
	if (!rs) rs = delay_seed * 0x9E3779B97F4A7C15ull + (atomic_fetch_add(&thr_n, 1) + 1) * 0xD1B54A32D192ED03ull;
	rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
	return rs;
}
static void delay(void) {
	if (!delay_prob) return;
	int e = errno;
	uint64_t r = rnd();
	if (r % 1000 < delay_prob) {
		uint64_t us = (r >> 20) % (delay_max + 1);
		if (us < 3) sched_yield();
		else { struct timespec ts = { us / 1000000, us % 1000000 * 1000 }; syscall(SYS_nanosleep, &ts, 0); }
	}
	errno = e;
}

/* ---- misc settings ---- */
static bool nouring, logfd, logcalls;
static bool fakenow; static struct timespec now;
static long e2big = -1;
static struct { uint64_t ino; unsigned dev; } fdev[256]; static int nfdev;
static struct { uint64_t ino; char f; long long v, ns; } fst[512]; static int nfst;
/* VP_OLD: a system without some calls (s/S: statx, a: faccessat without flags, m: /etc/mtab; p: small getpw*_r buffers are refused) */
static int nostatx; static bool pwrange, noaccess, nomtab;
static struct { char name[512], attr[128]; } fx[64]; static int nfx;   /* attributes of symbolic links */
static bool dtunk;         /* the file system does not report d_type */
static long short_write;   /* limit each write() to this many bytes */
static long dents_max;     /* limit each getdents buffer */
static struct { int op, no; long nth; _Atomic int done; } sigs[64]; static int nsigs; static pid_t mainpid;   /* signals at chosen calls */

/* (resolved early, because dlsym() can take locks that a forked child must not wait for) */
struct real { const char *name; void *fn; };
#define REAL(ret, sym, ...) \
	static struct real real_ __attribute__((section("vpreals"), used)) = { sym, NULL }; \
	ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))real_.fn; \
	if (!real) real_.fn = (void *)(real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, sym))
extern struct real __start_vpreals[], __stop_vpreals[];

static void parse_faults(char *s) {
	/* op:nth:err | op:nth/period:err | op=name:err */
	for (char *t = strtok(s, ","); t && nfaults < 64; t = strtok(NULL, ",")) {
		struct fault *f = &faults[nfaults];
		char *c = strrchr(t, ':');
		if (!c) continue;
		f->err = atoi(c + 1);
		*c = 0;
		char *eq = strchr(t, '=');
		char *co = strchr(t, ':');
		if (eq) {
			*eq = 0;
			/* hex name */
			char *h = eq + 1; size_t n = strlen(h) / 2;
			f->name = calloc(1, n + 1);
			for (size_t i = 0; i < n; ++i) { unsigned v; sscanf(h + 2 * i, "%2x", &v); f->name[i] = v; }
		} else if (co) {
			*co = 0;
			f->nth = atol(co + 1);
			char *sl = strchr(co + 1, '/');
			if (sl) f->period = atol(sl + 1);
		}
		f->op = -1;
		for (int i = 0; i < OP_N; ++i) if (!strcmp(opname[i], t)) f->op = i;
		if (f->op >= 0) ++nfaults;
	}
}

/* ---- concurrent modification: at the n-th observed call, perform the listed operations ---- */
struct mut { long tick; char kind; char *a, *b; };
static struct mut *muts; static int nmuts, nextmut;
static _Atomic long ticks;
static pthread_mutex_t mutlock = PTHREAD_MUTEX_INITIALIZER;
static char *unhex(const char *h) {
	size_t n = strlen(h) / 2; char *r = calloc(1, n + 1);
	for (size_t i = 0; i < n; ++i) { unsigned v; sscanf(h + 2 * i, "%2x", &v); r[i] = v; }
	return r;
}
static void load_muts(const char *path) {
	FILE *f = fopen(path, "r");
	if (!f) return;
	static char a[20000], b[20000];
	long t; char k;
	muts = calloc(2000, sizeof *muts);
	while (nmuts < 2000 && fscanf(f, "%ld %c %19999s %19999s", &t, &k, a, b) == 4)
		muts[nmuts++] = (struct mut) { t, k, unhex(a), unhex(b) };
	fclose(f);
}
static void mutate(void) {
	long t = ++ticks;
	if (!nmuts || __atomic_load_n(&nextmut, __ATOMIC_ACQUIRE) >= nmuts || muts[__atomic_load_n(&nextmut, __ATOMIC_ACQUIRE)].tick > t) return;
	if (getpid() != mainpid) return;   /* (a child may have inherited the lock from a thread it does not have) */
	int e = errno;
	pthread_mutex_lock(&mutlock);
	while (nextmut < nmuts && muts[nextmut].tick <= t) {
		struct mut *m = &muts[nextmut];
		long r = -1;
		switch (m->kind) {
		case 'u': r = syscall(SYS_unlinkat, AT_FDCWD, m->a, 0); break;
		case 'r': r = syscall(SYS_unlinkat, AT_FDCWD, m->a, AT_REMOVEDIR); break;
		case 'n': r = syscall(SYS_renameat2, AT_FDCWD, m->a, AT_FDCWD, m->b, 0); break;
		case 'd': r = syscall(SYS_mkdirat, AT_FDCWD, m->a, 0755); break;
		case 'c': r = syscall(SYS_openat, AT_FDCWD, m->a, O_CREAT | O_WRONLY | O_CLOEXEC, 0644); if (r >= 0) syscall(SYS_close, (int)r); break;
		case 'l': r = syscall(SYS_symlinkat, m->b, AT_FDCWD, m->a); break;
		}
		vlog("M %d %ld %d\n", nextmut, t, r < 0 ? errno : 0);
		__atomic_store_n(&nextmut, nextmut + 1, __ATOMIC_RELEASE);
	}
	pthread_mutex_unlock(&mutlock);
	errno = e;
}

/* which descriptors are open */
static void snap(const char *tag) {
	struct rlimit rl = { 1024, 1024 };
	getrlimit(RLIMIT_NOFILE, &rl);
	int n = rl.rlim_cur > 20000 ? 20000 : (int)rl.rlim_cur;
	for (int i = 0; i < n; ++i) {
		if (fcntl(i, F_GETFD) < 0) continue;
		char p[32], l[512], b[1100];
		snprintf(p, sizeof p, "/proc/self/fd/%d", i);
		long k = syscall(SYS_readlinkat, AT_FDCWD, p, l, sizeof l - 1);
		l[k > 0 ? k : 0] = 0;
		vlog("F %s %d %s\n", tag, i, hex(l, b, sizeof b));
	}
}

__attribute__((constructor)) static void init(void) {
	extern char *program_invocation_short_name;
	if (strncmp(program_invocation_short_name, "bfs", 3) != 0) return;
	const char *e;
	if ((e = getenv("VP_LOG"))) {
		int fd = syscall(SYS_openat, AT_FDCWD, e, O_RDWR | O_CLOEXEC);
		struct stat sb;
		if (fd >= 0) {
			off_t size = syscall(SYS_lseek, fd, 0, SEEK_END);
			void *p = mmap(0, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p != MAP_FAILED) {
				logp = p;
				if (!logp->size) { logp->size = size; logp->off = sizeof(struct hdr); }
			}
			syscall(SYS_close, fd);
		}
	}
	if ((e = getenv("VP_FAIL"))) parse_faults(strdup(e));
	if ((e = getenv("VP_DELAY"))) sscanf(e, "%lu:%u:%u", &delay_seed, &delay_prob, &delay_max);
	if (getenv("VP_NOURING")) nouring = true;
	if (getenv("VP_LOGFD")) logfd = true;
	if (getenv("VP_LOGCALLS")) logcalls = true;
	if ((e = getenv("VP_NOW"))) { long s, n = 0; sscanf(e, "%ld.%ld", &s, &n); now.tv_sec = s; now.tv_nsec = n; fakenow = true; }
	if ((e = getenv("VP_E2BIG"))) e2big = atol(e);
	if ((e = getenv("VP_SHORT"))) short_write = atol(e);
	if ((e = getenv("VP_DENTS"))) dents_max = atol(e);
	mainpid = getpid();
	for (struct real *r = __start_vpreals; r < __stop_vpreals; ++r) if (!r->fn) r->fn = dlsym(RTLD_NEXT, r->name);
	if ((e = getenv("VP_SIG"))) {
		char *s = strdup(e), nm[32];
		for (char *t = strtok(s, ","); t && nsigs < 64; t = strtok(NULL, ","))
			if (sscanf(t, "%31[a-z]:%ld:%d", nm, &sigs[nsigs].nth, &sigs[nsigs].no) == 3)
				for (int i = 0; i < OP_N; ++i) if (!strcmp(opname[i], nm)) { sigs[nsigs++].op = i; break; }
	}
	if (getenv("VP_DTUNK")) dtunk = true;
	if ((e = getenv("VP_OLD"))) {
		if (strchr(e, 's')) nostatx = ENOSYS;
		if (strchr(e, 'S')) nostatx = EPERM;
		pwrange = strchr(e, 'p') != NULL;
		noaccess = strchr(e, 'a') != NULL;
		nomtab = strchr(e, 'm') != NULL;
	}
	if ((e = getenv("VP_FAKESTAT"))) {
		char *s = strdup(e);
		for (char *t = strtok(s, ","); t && nfst < 512; t = strtok(NULL, ","))
			if (sscanf(t, "%lu:%c:%lld.%lld", &fst[nfst].ino, &fst[nfst].f, &fst[nfst].v, &fst[nfst].ns) >= 3) nfst++;
	}
	if ((e = getenv("VP_FAKEDEV"))) {
		char *s = strdup(e);
		for (char *t = strtok(s, ","); t && nfdev < 256; t = strtok(NULL, ",")) {
			sscanf(t, "%lu:%u", &fdev[nfdev].ino, &fdev[nfdev].dev); nfdev++;
		}
	}
	if ((e = getenv("VP_FAKEX"))) {
		char *s = strdup(e);
		for (char *t = strtok(s, ","); t && nfx < 64; t = strtok(NULL, ","))
			if (sscanf(t, "%511[0-9a-f]:%127s", fx[nfx].name, fx[nfx].attr) == 2) nfx++;
	}
	if ((e = getenv("VP_MUT"))) load_muts(e);
	if (logfd && logp) snap("s");
	active = true;
}

__attribute__((destructor)) static void fini(void) {
	if (!active || !logp) return;
	if (logfd) snap("e");
	siginfo_t si; si.si_pid = 0;
	if (waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0) vlog("Z %d\n", (int)si.si_pid);
	if (nmuts) vlog("T %ld\n", (long)ticks);
	for (int i = 0; i < OP_N; ++i) if (opcount[i]) vlog("C %s %ld\n", opname[i], (long)opcount[i]);
}

static int fault(int op, const char *path) {
	if (!active) return 0;
	int err = fault_one(op, path);
	for (int i = 0; i < nsigs; ++i)
		if (op == sigs[i].op && opcount[op] > sigs[i].nth && getpid() == mainpid && !atomic_exchange(&sigs[i].done, 1)) {
			int no = sigs[i].no;
			vlog("S %d %s\n", no % 1000, opname[op]);
			if (no > 1000) kill(getpid(), no - 1000);   /* to the process */
			else raise(no);                              /* to this thread */
		}
	if (op != OP_MALLOC) { delay(); if (nmuts) mutate(); }
	if (err) { errno = err; return -1; }
	return 0;
}

static void log_open(int at, const char *path, int flags, int fd) {
	if (logfd) { char b[8300]; vlog("O %d %d %x %s\n", fd, at, flags, hex(path, b, sizeof b)); }
}

EXPORT int openat64(int at, const char *path, int flags, ...) {
	REAL(int, "openat64", int, const char *, int, ...);
	mode_t mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	if (active && (flags & O_DIRECTORY)) { if (fault(OP_OPENDIR, path)) return -1; }
	else if (fault(OP_OPEN, path)) return -1;
	int fd = real(at, path, flags, mode);
	if (active) { log_open(at, path, flags, fd); delay(); }
	return fd;
}
EXPORT int openat(int at, const char *path, int flags, ...) {
	mode_t mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	return openat64(at, path, flags, mode);
}
EXPORT int open64(const char *path, int flags, ...) {
	REAL(int, "open64", const char *, int, ...);
	mode_t mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	if (active && (flags & O_DIRECTORY)) { if (fault(OP_OPENDIR, path)) return -1; }
	else if (fault(OP_OPEN, path)) return -1;
	int fd = real(path, flags, mode);
	if (active) { log_open(AT_FDCWD, path, flags, fd); delay(); }
	return fd;
}
EXPORT int open(const char *path, int flags, ...) {
	mode_t mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	return open64(path, flags, mode);
}
EXPORT int close(int fd) {
	REAL(int, "close", int);
	if (active) {
		int err = fault_one(OP_CLOSE, NULL);
		delay();
		if (nmuts) mutate();
		if (logfd) vlog("X %d\n", fd);
		int r = real(fd);
		if (r == 0 && err) { errno = err; return -1; }
		if (r != 0 && logfd) vlog("E close %d %d\n", fd, errno);
		return r;
	}
	return real(fd);
}
EXPORT int closedir(DIR *d) {
	REAL(int, "closedir", DIR *);
	if (active && logfd) vlog("X %d\n", dirfd(d));
	return real(d);
}
EXPORT int dup2(int a, int b) { REAL(int, "dup2", int, int); if (fault(OP_DUP, NULL)) return -1; return real(a, b); }

/* Symbolic links with attributes cannot be made without privileges; pretend. */
static int fakex(const char *path, const char *attr, char *list, size_t size) {
	char h[1100]; int n = 0, any = 0;
	hex(base(path), h, sizeof h);
	for (int i = 0; i < nfx; ++i) {
		if (strcmp(fx[i].name, h)) continue;
		any = 1;
		if (attr) { if (!strcmp(attr, fx[i].attr)) return 3; continue; }
		int l = strlen(fx[i].attr) + 1;
		if (size) { if ((size_t)(n + l) > size) { errno = ERANGE; return -1; } memcpy(list + n, fx[i].attr, l); }
		n += l;
	}
	if (!any) return -2;
	if (attr) { errno = ENODATA; return -1; }
	return n;
}
static bool fakelink(const char *path) {
	struct stat s;
	return active && nfx && fstatat(AT_FDCWD, path, &s, AT_SYMLINK_NOFOLLOW) == 0 && S_ISLNK(s.st_mode);
}
EXPORT ssize_t llistxattr(const char *path, char *list, size_t size) {
	REAL(ssize_t, "llistxattr", const char *, char *, size_t);
	if (fakelink(path)) { int r = fakex(path, NULL, list, size); if (r != -2) return r; }
	return real(path, list, size);
}
EXPORT ssize_t lgetxattr(const char *path, const char *name, void *v, size_t size) {
	REAL(ssize_t, "lgetxattr", const char *, const char *, void *, size_t);
	if (fakelink(path)) {
		int r = fakex(path, name, NULL, 0);
		if (r != -2) { if (r > 0 && size) { if (size < 3) { errno = ERANGE; return -1; } memcpy(v, "abc", 3); } return r; }
	}
	return real(path, name, v, size);
}

static void fakestatx(struct statx *s) {
	uint64_t ino = s->stx_ino;
	for (int i = 0; i < nfst; ++i) {
		if (fst[i].ino != ino) continue;
		long long v = fst[i].v;
		struct statx_timestamp ts = { .tv_sec = v, .tv_nsec = fst[i].ns };
		switch (fst[i].f) {
		case 'i': s->stx_ino = v; break;
		case 'n': s->stx_nlink = v; break;
		case 'u': s->stx_uid = v; break;
		case 'g': s->stx_gid = v; break;
		case 's': s->stx_size = v; break;
		case 'b': s->stx_blocks = v; break;
		case 'd': s->stx_dev_major = major(v); s->stx_dev_minor = minor(v); break;
		case 'r': s->stx_rdev_major = major(v); s->stx_rdev_minor = minor(v); break;
		case 'm': s->stx_mode = v; break;
		case 'A': s->stx_atime = ts; break;
		case 'M': s->stx_mtime = ts; break;
		case 'C': s->stx_ctime = ts; break;
		case 'B': s->stx_btime = ts; s->stx_mask |= STATX_BTIME; break;
		case 'X': s->stx_mask &= ~STATX_BTIME; break;
		}
	}
	for (int i = 0; i < nfdev; ++i) if (fdev[i].ino == s->stx_ino) { s->stx_dev_major = major(fdev[i].dev); s->stx_dev_minor = minor(fdev[i].dev); }
}
static void fakestat(struct stat64 *s) {
	uint64_t ino = s->st_ino;
	for (int i = 0; i < nfst; ++i) {
		if (fst[i].ino != ino) continue;
		long long v = fst[i].v;
		struct timespec ts = { .tv_sec = v, .tv_nsec = fst[i].ns };
		switch (fst[i].f) {
		case 'i': s->st_ino = v; break;
		case 'n': s->st_nlink = v; break;
		case 'u': s->st_uid = v; break;
		case 'g': s->st_gid = v; break;
		case 's': s->st_size = v; break;
		case 'b': s->st_blocks = v; break;
		case 'd': s->st_dev = v; break;
		case 'r': s->st_rdev = v; break;
		case 'm': s->st_mode = v; break;
		case 'A': s->st_atim = ts; break;
		case 'M': s->st_mtim = ts; break;
		case 'C': s->st_ctim = ts; break;
		}
	}
	for (int i = 0; i < nfdev; ++i) if (fdev[i].ino == s->st_ino) s->st_dev = fdev[i].dev;
}
EXPORT int statx(int at, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf) {
	REAL(int, "statx", int, const char *, int, unsigned, struct statx *);
	if (active && nostatx) { if (logcalls) vlog("X\n"); errno = nostatx; return -1; }
	if (fault(OP_STAT, path)) return -1;
	if (active && logcalls) { char b[8300]; vlog("T %d %x %s\n", at, flags, hex(path, b, sizeof b)); }
	int r = real(at, path, flags, mask, buf);
	if (active && r == 0) fakestatx(buf);
	if (active) delay();
	return r;
}
EXPORT int fstatat64(int at, const char *path, struct stat64 *buf, int flags) {
	REAL(int, "fstatat64", int, const char *, struct stat64 *, int);
	if (fault(OP_STAT, path)) return -1;
	int r = real(at, path, buf, flags);
	if (active && r == 0) fakestat(buf);
	return r;
}
EXPORT int fstatat(int at, const char *path, struct stat *buf, int flags) { return fstatat64(at, path, (struct stat64 *)buf, flags); }
EXPORT int fstat64(int fd, struct stat64 *buf) {
	REAL(int, "fstat64", int, struct stat64 *);
	if (fault(OP_STAT, NULL)) return -1;
	int r = real(fd, buf);
	if (active && r == 0) fakestat(buf);
	return r;
}
EXPORT int fstat(int fd, struct stat *buf) { return fstat64(fd, (struct stat64 *)buf); }
EXPORT int stat64(const char *p, struct stat64 *buf) { return fstatat64(AT_FDCWD, p, buf, 0); }
EXPORT int lstat64(const char *p, struct stat64 *buf) { return fstatat64(AT_FDCWD, p, buf, AT_SYMLINK_NOFOLLOW); }

EXPORT ssize_t getdents64(int fd, void *buf, size_t n) {
	REAL(ssize_t, "getdents64", int, void *, size_t);
	if (active) {
		char link[64], tgt[4200]; tgt[0] = 0;
		if (nfaults) {
			snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
			ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, link, tgt, sizeof tgt - 1);
			tgt[k > 0 ? k : 0] = 0;
		}
		if (fault(OP_GETDENTS, nfaults ? tgt : NULL)) return -1;
		if (dents_max && n > (size_t)dents_max) n = dents_max;
	}
	ssize_t r = real(fd, buf, n);
	if (active && dtunk && r > 0)
		for (ssize_t o = 0; o < r;) { struct dirent64 *d = (void *)((char *)buf + o); d->d_type = DT_UNKNOWN; o += d->d_reclen; }
	if (active) { if (logcalls) vlog("D %d %zd\n", fd, r); delay(); }
	return r;
}
EXPORT ssize_t readlinkat(int at, const char *restrict path, char *restrict buf, size_t n) {
	REAL(ssize_t, "readlinkat", int, const char *, char *, size_t);
	if (fault(OP_READLINK, path)) return -1;
	return real(at, path, buf, n);
}
EXPORT int faccessat(int at, const char *path, int mode, int flags) {
	REAL(int, "faccessat", int, const char *, int, int);
	if (fault(OP_ACCESS, path)) return -1;
	if (active && noaccess && !flags) { errno = EINVAL; return -1; }
	return real(at, path, mode, flags);
}
/* VP_NAMES: additional users and groups, uNAME=ID,gNAME=ID,... */
static int vpname(char kind, const char *name, long id, char *buf, size_t n, long *out) {
	const char *s = active ? getenv("VP_NAMES") : NULL;
	while (s && *s) {
		size_t len = strcspn(s, ","), nl = strcspn(s, "=");
		if (*s == kind && nl < len) {
			long v = strtol(s + nl + 1, NULL, 10);
			if (name ? strlen(name) == nl - 1 && !strncmp(name, s + 1, nl - 1) : v == id) {
				if (n < nl + 1) return ERANGE;
				memcpy(buf, s + 1, nl - 1); buf[nl - 1] = 0;
				*out = v;
				return -1;
			}
		}
		s += len; if (*s) ++s;
	}
	return 0;
}
static void vpfill(struct passwd *p, char *b, long id) { static char e[1]; memset(p, 0, sizeof(*p)); p->pw_name = b; p->pw_uid = p->pw_gid = id; p->pw_passwd = p->pw_gecos = p->pw_dir = p->pw_shell = e; }
static void vgfill(struct group *p, char *b, long id) { static char e[1]; static char *none[1]; memset(p, 0, sizeof(*p)); p->gr_name = b; p->gr_gid = id; p->gr_passwd = e; p->gr_mem = none; }
#define PWR(name, key_t, st, kind, fill, byname, byid) \
EXPORT int name(key_t k, struct st *p, char *buf, size_t n, struct st **r) { \
	REAL(int, #name, key_t, struct st *, char *, size_t, struct st **); \
	if (fault(OP_GETPW, NULL)) { *r = NULL; return errno; } \
	if (active && pwrange && n < 20000) { *r = NULL; return ERANGE; } \
	long id; \
	int e = vpname(kind, byname, byid, buf, n, &id); \
	if (e > 0) { *r = NULL; return e; } \
	if (e < 0) { fill(p, buf, id); *r = p; return 0; } \
	return real(k, p, buf, n, r); \
}
PWR(getpwnam_r, const char *, passwd, 'u', vpfill, k, 0)
PWR(getpwuid_r, uid_t, passwd, 'u', vpfill, NULL, (long)k)
PWR(getgrnam_r, const char *, group, 'g', vgfill, k, 0)
PWR(getgrgid_r, gid_t, group, 'g', vgfill, NULL, (long)k)
EXPORT FILE *setmntent(const char *path, const char *mode) {
	REAL(FILE *, "setmntent", const char *, const char *);
	if (fault(OP_MNT, path)) return NULL;
	if (active && nomtab && strcmp(path, "/proc/mounts")) { errno = ENOENT; return NULL; }
	return real(path, mode);
}
EXPORT int unlinkat(int at, const char *path, int flags) {
	REAL(int, "unlinkat", int, const char *, int);
	if (active) {
		char link[64], dir[4200] = "", b[8300], c[8500];
		if (logp) {
			if (at == AT_FDCWD) { if (!getcwd(dir, sizeof dir)) dir[0] = 0; }
			else {
				snprintf(link, sizeof link, "/proc/self/fd/%d", at);
				ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, link, dir, sizeof dir - 1);
				dir[k > 0 ? k : 0] = 0;
			}
		}
		if (fault(OP_UNLINK, path)) return -1;
		int r = real(at, path, flags);
		int e = errno;
		vlog("U %d %x %s %s\n", r ? e : 0, flags, hex(dir, c, sizeof c)[0] ? c : "-", hex(path, b, sizeof b));
		errno = e;
		return r;
	}
	return real(at, path, flags);
}
EXPORT int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
EXPORT int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int remove(const char *p) { struct stat sb; int fl = 0; if (!fstatat(AT_FDCWD, p, &sb, AT_SYMLINK_NOFOLLOW) && S_ISDIR(sb.st_mode)) fl = AT_REMOVEDIR; return unlinkat(AT_FDCWD, p, fl); }
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
	REAL(ssize_t, "write", int, const void *, size_t);
	if (fault(OP_WRITE, NULL)) return -1;
	if (active && short_write && n > (size_t)short_write) n = short_write;
	return real(fd, buf, n);
}
EXPORT int fchdir(int fd) { REAL(int, "fchdir", int); if (fault(OP_FCHDIR, NULL)) return -1; return real(fd); }
EXPORT int pthread_create(pthread_t *restrict t, const pthread_attr_t *restrict a, void *(*f)(void *), void *restrict p) {
	REAL(int, "pthread_create", pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
	if (active && fault_one(OP_THREAD, NULL)) return EAGAIN;
	return real(t, a, f, p);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
	REAL(int, "pthread_mutex_lock", pthread_mutex_t *);
	if (active) delay();
	return real(m);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
	REAL(int, "pthread_mutex_unlock", pthread_mutex_t *);
	int r = real(m);
	if (active) delay();
	return r;
}
struct io_uring; struct io_uring_params; struct io_uring_cqe; struct __kernel_timespec;
EXPORT int io_uring_queue_init_params(unsigned n, struct io_uring *r, struct io_uring_params *p) {
	REAL(int, "io_uring_queue_init_params", unsigned, struct io_uring *, struct io_uring_params *);
	if (active && nouring) return -ENOSYS;
	if (fault(OP_URING, NULL)) return -errno;
	if (active) vlog("R\n");
	return real(n, r, p);
}
EXPORT int io_uring_submit_and_wait(struct io_uring *r, unsigned n) {
	REAL(int, "io_uring_submit_and_wait", struct io_uring *, unsigned);
	if (fault(OP_SUBMIT, NULL)) return -errno;
	int x = real(r, n);
	if (active) delay();
	return x;
}
EXPORT int io_uring_wait_cqes(struct io_uring *r, struct io_uring_cqe **c, unsigned n, struct __kernel_timespec *ts, sigset_t *s) {
	REAL(int, "io_uring_wait_cqes", struct io_uring *, struct io_uring_cqe **, unsigned, struct __kernel_timespec *, sigset_t *);
	if (active) delay();
	return real(r, c, n, ts, s);
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
	/* no dlsym() here: sanitizer runtimes call this from their allocators */
	if (active && fakenow && c == CLOCK_REALTIME) { *ts = now; return 0; }
	return syscall(SYS_clock_gettime, c, ts);
}
EXPORT time_t time(time_t *t) {
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
EXPORT int timespec_get(struct timespec *ts, int base) { clock_gettime(CLOCK_REALTIME, ts); return base; }

static long argsize(char *const v[]) { long n = 0; for (; v && *v; ++v) n += strlen(*v) + 1 + sizeof(char *); return n; }
EXPORT int posix_spawn(pid_t *restrict pid, const char *restrict path, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *restrict at, char *const argv[], char *const envp[]) {
	REAL(int, "posix_spawn", pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const *, char *const *);
	if (active && e2big >= 0 && argsize(argv) > e2big) { vlog("B %ld\n", argsize(argv)); return E2BIG; }
	if (fault(OP_SPAWN, path)) return errno;
	return real(pid, path, a, at, argv, envp);
}
EXPORT int posix_spawnp(pid_t *restrict pid, const char *restrict path, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *restrict at, char *const argv[], char *const envp[]) {
	REAL(int, "posix_spawnp", pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const *, char *const *);
	if (active && e2big >= 0 && argsize(argv) > e2big) { vlog("B %ld\n", argsize(argv)); return E2BIG; }
	if (fault(OP_SPAWN, path)) return errno;
	return real(pid, path, a, at, argv, envp);
}
EXPORT int execve(const char *path, char *const argv[], char *const envp[]) {
	REAL(int, "execve", const char *, char *const *, char *const *);
	if (active && e2big >= 0 && argsize(argv) > e2big) { errno = E2BIG; vlog("B %ld\n", argsize(argv)); return -1; }
	return real(path, argv, envp);
}
EXPORT pid_t _Fork(void) { REAL(pid_t, "_Fork", void); if (fault(OP_SPAWN, NULL)) return -1; return real(); }
EXPORT pid_t fork(void) { REAL(pid_t, "fork", void); if (fault(OP_SPAWN, NULL)) return -1; return real(); }
EXPORT pid_t waitpid(pid_t p, int *st, int o) { REAL(pid_t, "waitpid", pid_t, int *, int); if (fault(OP_WAIT, NULL)) return -1; return real(p, st, o); }
EXPORT int pipe2(int fds[2], int f) { REAL(int, "pipe2", int *, int); if (fault(OP_PIPE, NULL)) return -1; return real(fds, f); }

#ifdef VP_ALLOC
static __thread int in_alloc;
static uintptr_t exe_lo, exe_hi; static int allocall;
static int exe_range(struct dl_phdr_info *i, size_t size, void *p) {
	for (int k = 0; k < i->dlpi_phnum; ++k) {
		if (i->dlpi_phdr[k].p_type != PT_LOAD) continue;
		uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz;
		if (!exe_lo || lo < exe_lo) exe_lo = lo;
		if (hi > exe_hi) exe_hi = hi;
	}
	return 1;
}
__attribute__((constructor)) static void init_alloc(void) {
	dl_iterate_phdr(exe_range, NULL);
	allocall = !!getenv("VP_ALLOCALL");
	void *f[4]; backtrace(f, 4);
}
static int alloc_fault(void *ret) {
	if (!active || in_alloc) return 0;
	uintptr_t r = (uintptr_t)ret;
	if (!allocall && (r < exe_lo || r >= exe_hi)) return 0;
	if (!fault_one(OP_MALLOC, NULL)) return 0;
	in_alloc = 1;
	void *f[12]; int n = backtrace(f, 12); char b[400]; int k = 0; b[0] = 0;
	for (int i = 0; i < n && k < 300; ++i) {
		uintptr_t x = (uintptr_t)f[i];
		if (x >= exe_lo && x < exe_hi) k += snprintf(b + k, sizeof b - k, "%lx+", (long)(x - exe_lo));
	}
	vlog("A %ld %s\n", (long)opcount[OP_MALLOC] - 1, b[0] ? b : "lib");
	in_alloc = 0;
	errno = ENOMEM;
	return 1;
}
#define RET __builtin_return_address(0)
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
EXPORT void *malloc(size_t n) { return alloc_fault(RET) ? NULL : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { return alloc_fault(RET) ? NULL : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return alloc_fault(RET) ? NULL : __libc_realloc(p, n); }
EXPORT int posix_memalign(void **p, size_t a, size_t n) { if (alloc_fault(RET)) return ENOMEM; void *q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
EXPORT void *aligned_alloc(size_t a, size_t n) { return alloc_fault(RET) ? NULL : __libc_memalign(a, n); }
EXPORT char *strdup(const char *x) { if (alloc_fault(RET)) return NULL; size_t n = strlen(x) + 1; char *r = __libc_malloc(n); return r ? memcpy(r, x, n) : NULL; }
EXPORT char *strndup(const char *x, size_t m) { if (alloc_fault(RET)) return NULL; size_t n = strnlen(x, m); char *r = __libc_malloc(n + 1); if (!r) return NULL; memcpy(r, x, n); r[n] = 0; return r; }
#endif
