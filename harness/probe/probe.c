/* Prints its arguments (hex), chosen parts of its environment, and its directory, in one write. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
extern char **environ;
static char buf[1 << 20];
static size_t n;
static void hex(const char *s) { for (; *s; s++) n += sprintf(buf + n, "%02x", (unsigned char)*s); }
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
int main(int argc, char **argv)
{
	const char *b = strrchr(argv[0], '/');
	b = b ? b + 1 : argv[0];
	if (!strncmp(b, "env", 3)) {                      /* the whole environment, sorted */
		int c = 0;
		while (environ[c]) c++;
		qsort(environ, c, sizeof *environ, cmp);
		for (int i = 0; i < c; i++) n += sprintf(buf + n, "%s\n", environ[i]);
	} else if (!strncmp(b, "vars", 4)) {              /* the named variables */
		for (int i = 1; i < argc; i++) { char *v = getenv(argv[i]); n += sprintf(buf + n, "%s%s=%s", i > 1 ? " " : "", argv[i], v ? v : "-"); }
		buf[n++] = '\n';
	} else if (!strncmp(b, "where", 5)) {             /* the directory */
		char d[4096];
		n += sprintf(buf, "%s\n", getcwd(d, sizeof d) ? d : "?");
	} else if (!strncmp(b, "code", 4)) {              /* exit status */
		return argc > 1 ? atoi(argv[1]) : 0;
	} else if (!strncmp(b, "both", 4)) {              /* one line on each stream */
		fprintf(stdout, "out %s\n", argc > 1 ? argv[1] : ""); fflush(stdout);
		fprintf(stderr, "err %s\n", argc > 1 ? argv[1] : "");
	} else if (!strncmp(b, "die", 3) || !strncmp(b, "dump", 4)) { /* killed by a signal; dump: may leave a core file */
		struct rlimit r; getrlimit(RLIMIT_CORE, &r);
		r.rlim_cur = b[1] == 'u' ? r.rlim_max < 65536 ? r.rlim_max : 65536 : 0; setrlimit(RLIMIT_CORE, &r);
		signal(argc > 1 ? atoi(argv[1]) : 9, SIG_DFL);
		kill(getpid(), argc > 1 ? atoi(argv[1]) : 9); for (;;) pause();
	} else {
		for (int i = 0; i < argc; i++) { n += sprintf(buf + n, i ? " <" : "<"); hex(argv[i]); n += sprintf(buf + n, ">"); }
		buf[n++] = '\n';
	}
	return write(1, buf, n) == (ssize_t)n ? 0 : 1;
}
