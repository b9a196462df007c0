// ndrss FILE CMD ARGS...: runs CMD and writes its peak resident memory (KiB) to FILE.
// The process forks from here, so that the peak is its own and not that of a big parent.
#include <stdio.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

int main(int argc, char **argv) {
	if (argc < 3) return 125;
	pid_t p = fork();
	if (p < 0) return 125;
	if (p == 0) {
		prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0); // huge pages would blur the measurement
		execv(argv[2], argv + 2);
		_exit(127);
	}
	// the pipe ends belong to CMD alone
	close(0);
	close(1);
	int st = 0;
	struct rusage ru;
	if (wait4(p, &st, 0, &ru) != p) return 125;
	FILE *f = fopen(argv[1], "w");
	if (!f) return 125;
	fprintf(f, "%ld %d\n", ru.ru_maxrss, WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
	fclose(f);
	return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
