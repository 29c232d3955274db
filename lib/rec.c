/* Recorder executed by bfs: appends one line about its own execution to $REC_LOG.
 * argv[1] is "id:modes"; modes: s identity of each argument, e process state,
 * hN exit status (sum of argument bytes) % N, xN exit status N, kN die by signal N. */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static char *buf; static size_t len, cap;
static void put(const char *s, size_t n) {
	if (len + n + 1 > cap) { cap = 2 * (len + n + 1); buf = realloc(buf, cap); }
	memcpy(buf + len, s, n); len += n;
}
static void str(const char *s) { put(s, strlen(s)); }
static void hex(const char *s) {
	char b[2];
	if (!*s) str("-");
	for (; *s; ++s) { b[0] = "0123456789abcdef"[(unsigned char)*s >> 4]; b[1] = "0123456789abcdef"[*s & 15]; put(b, 2); }
}
static void num(long long n) { char b[32]; put(b, sprintf(b, "%lld", n)); }
static void ident(int ret, struct stat *sb) { if (ret) str("x"); else { num(sb->st_dev); str(":"); num(sb->st_ino); } }

int main(int argc, char **argv) {
	const char *log = getenv("REC_LOG");
	char *ctl = argc > 1 ? argv[1] : "";
	char *modes = strchr(ctl, ':');
	size_t idlen = modes ? (size_t)(modes - ctl) : strlen(ctl);
	modes = modes ? modes + 1 : "";
	unsigned long sum = 0;
	for (int i = 2; i < argc; ++i) for (char *p = argv[i]; *p; ++p) sum += (unsigned char)*p;
	struct stat sb;
	put(ctl, idlen); str(" "); num(getpid()); str(" "); num(getppid()); str(" ");
	ident(stat(".", &sb), &sb); str(" ");
	/* sizes of the watched files */
	num(fstat(1, &sb) == 0 && S_ISREG(sb.st_mode) ? sb.st_size : -1);
	char *w = getenv("REC_WATCH");
	if (w && *w) {
		w = strdup(w);
		for (char *t = strtok(w, ":"); t; t = strtok(NULL, ":")) { str(","); num(stat(t, &sb) == 0 ? sb.st_size : -1); }
	}
	str(" |");
	for (int i = 0; i < argc; ++i) { str(" "); hex(argv[i]); }
	str(" |");
	if (strchr(modes, 's')) for (int i = 2; i < argc; ++i) { str(" "); ident(lstat(argv[i], &sb), &sb); }
	str(" |");
	if (strchr(modes, 'e')) {
		DIR *d = opendir("/proc/self/fd");
		struct dirent *de;
		while (d && (de = readdir(d))) {
			int fd = atoi(de->d_name);
			if (de->d_name[0] == '.' || fd == dirfd(d)) continue;
			char t[4200]; ssize_t n = readlinkat(dirfd(d), de->d_name, t, sizeof t - 1);
			t[n > 0 ? n : 0] = 0;
			str(" fd="); num(fd); str(":"); hex(t); str(":"); num(fcntl(fd, F_GETFD)); str(":"); num(fcntl(fd, F_GETFL));
		}
		if (d) closedir(d);
		struct rlimit rl;
		static const int rs[] = { RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_CORE, RLIMIT_FSIZE };
		for (int i = 0; i < 4; ++i) { getrlimit(rs[i], &rl); str(" rl="); num(rs[i]); str(":"); num(rl.rlim_cur); str(":"); num(rl.rlim_max); }
		FILE *f = fopen("/proc/self/status", "r"); char line[512];
		while (f && fgets(line, sizeof line, f)) if (!strncmp(line, "Sig", 3) || !strncmp(line, "Umask", 5) || !strncmp(line, "Groups", 6) || !strncmp(line, "Uid", 3)) {
			if (!strncmp(line, "SigQ", 4)) continue;
			line[strcspn(line, "\n")] = 0;
			for (char *p = line; *p; ++p) if (*p == ' ' || *p == '\t') *p = '_';
			str(" st="); str(line);
		}
		if (f) fclose(f);
		extern char **environ;
		for (char **e = environ; *e; ++e) { str(" env="); hex(*e); }
		str(" sid="); num(getsid(0) == getsid(getppid())); str(" pg="); num(getpgrp() == getpgid(getppid()));
		/* children of our parent, zombies included */
		char p[64]; sprintf(p, "/proc/%d/task", getppid());
		d = opendir(p); int kids = 0;
		while (d && (de = readdir(d))) {
			if (de->d_name[0] == '.') continue;
			char q[400]; snprintf(q, sizeof q, "%s/%s/children", p, de->d_name);
			f = fopen(q, "r"); int k;
			while (f && fscanf(f, "%d", &k) == 1) ++kids;
			if (f) fclose(f);
		}
		if (d) closedir(d);
		str(" kids="); num(kids);
	}
	int status = 0, sig = 0; char *m;
	if ((m = strchr(modes, 'x'))) status = atoi(m + 1);
	if ((m = strchr(modes, 'h'))) status = sum % atoi(m + 1);
	if ((m = strchr(modes, 'k')) && sum % 2 == 0) sig = atoi(m + 1);
	str(" | "); num(sig ? -sig : status); str("\n");
	if (strchr(modes, 'd')) usleep(sum % 2000);
	if (log) {
		int fd = open(log, O_WRONLY | O_APPEND | O_CLOEXEC);
		size_t o = 0;
		/* (bfs runs one command at a time, so appends cannot interleave unless it misbehaves) */
		while (fd >= 0 && o < len) { ssize_t n = write(fd, buf + o, len - o); if (n <= 0) break; o += n; }
		if (fd >= 0) close(fd);
	}
	if (strchr(modes, 'p')) { for (int i = 2; i < argc; ++i) { write(1, argv[i], strlen(argv[i]) + 1); } }
	if (sig) { struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z); signal(sig, SIG_DFL); sigset_t s; sigemptyset(&s); sigprocmask(SIG_SETMASK, &s, 0); raise(sig); }
	return status;
}
