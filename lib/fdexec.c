/* fdexec SOFT HARD N FD1..FDN PROG ARGS...: run PROG with exactly descriptors 0-2 and
 * the given ones moved to 3.., under the given descriptor limits. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <unistd.h>
int main(int argc, char **argv) {
	struct rlimit rl = { atol(argv[1]), atol(argv[2]) };
	int n = atoi(argv[3]), tmp[64];
	for (int i = 0; i < n; ++i) tmp[i] = fcntl(atoi(argv[4 + i]), F_DUPFD, 500);
	close_range(3, 499, 0);
	for (int i = 0; i < n; ++i) dup2(tmp[i], 3 + i);
	close_range(3 + n, ~0U, 0);
	if (setrlimit(RLIMIT_NOFILE, &rl) != 0) return 126;
	execv(argv[4 + n], argv + 4 + n);
	return 127;
}
