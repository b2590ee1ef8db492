/*
 * Fork server around selint's main().  selint's sources are compiled
 * unmodified; only the *name* main is redefined (-Dmain=selint_main) while
 * compiling, so that this file can supply the process' real main().
 *
 * Every request forks a fresh child from a process that never ran any selint
 * code, so each case is exactly one ordinary program run: no state leaks
 * between cases.
 *
 * Protocol (stdin -> requests, fd given as argument -> replies), all text lines + raw bytes:
 *   request:  "<cwd_len> <root_len> <cpu_s> <perturb> <argc> <len_0> ... <len_argc-1>\n" then the bytes
 *   reply:    "<wait_status> <cpu_us>\n"
 * The child's stdout/stderr go to <argv0 dir given on command line>/out, err.
 *
 * The two absolute system locations selint reads in its non-source mode
 * (/usr/share/selinux/..., /sys/fs/selinux/...) are redirected to <root>/...
 * through --wrap, so that the checks can supply them without touching the
 * real system.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fts.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

int selint_main(int argc, char **argv);

static char redirect_root[4096];

static const char *redir(const char *p, char *buf, size_t n)
{
	if (!p) {
		return p;
	}
	if (0 == strncmp(p, "/usr/share/selinux", 18) || 0 == strncmp(p, "/sys/fs/selinux", 15)) {
		snprintf(buf, n, "%s%s", redirect_root, p);
		return buf;
	}
	return p;
}

FTS *__real_fts_open(char *const *, int, int (*)(const FTSENT **, const FTSENT **));
FTS *__wrap_fts_open(char *const *, int, int (*)(const FTSENT **, const FTSENT **));
FTS *__wrap_fts_open(char *const *paths, int opts, int (*cmp)(const FTSENT **, const FTSENT **))
{
	static char buf[16][4200];
	char *np[512];
	int nb = 0, i;
	for (i = 0; paths[i] && i < 511; i++) {
		if (nb < 16) {
			np[i] = (char *)redir(paths[i], buf[nb], sizeof buf[nb]);
			if (np[i] != paths[i]) {
				nb++;
			}
		} else {
			np[i] = paths[i];
		}
	}
	np[i] = NULL;
	if (nb == 0) {
		return __real_fts_open(paths, opts, cmp);
	}
	return __real_fts_open(np, opts, cmp);
}

int __real_access(const char *, int);
int __wrap_access(const char *, int);
int __wrap_access(const char *p, int m)
{
	char b[4200];
	return __real_access(redir(p, b, sizeof b), m);
}

FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m)
{
	char b[4200];
	return __real_fopen(redir(p, b, sizeof b), m);
}

int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *s)
{
	char b[4200];
	return __real_stat(redir(p, b, sizeof b), s);
}

int __real_lstat(const char *, struct stat *);
int __wrap_lstat(const char *, struct stat *);
int __wrap_lstat(const char *p, struct stat *s)
{
	char b[4200];
	return __real_lstat(redir(p, b, sizeof b), s);
}

DIR *__real_opendir(const char *);
DIR *__wrap_opendir(const char *);
DIR *__wrap_opendir(const char *p)
{
	char b[4200];
	return __real_opendir(redir(p, b, sizeof b));
}

int __real_scandir(const char *, struct dirent ***, int (*)(const struct dirent *),
                   int (*)(const struct dirent **, const struct dirent **));
int __wrap_scandir(const char *, struct dirent ***, int (*)(const struct dirent *),
                   int (*)(const struct dirent **, const struct dirent **));
int __wrap_scandir(const char *p, struct dirent ***l, int (*f)(const struct dirent *),
                   int (*c)(const struct dirent **, const struct dirent **))
{
	char b[4200];
	return __real_scandir(redir(p, b, sizeof b), l, f, c);
}

static void read_all(void *p, size_t n)
{
	if (fread(p, 1, n, stdin) != n) {
		exit(0);
	}
}

static char *read_str(size_t n)
{
	char *s = malloc(n + 1);
	if (!s) {
		exit(3);
	}
	read_all(s, n);
	s[n] = '\0';
	return s;
}

// Which of the standard streams pass for a terminal: bit 0 input, 1 output, 2 errors
static unsigned tty_mask;

int __real_isatty(int);
int __wrap_isatty(int);
int __wrap_isatty(int fd)
{
	if (fd >= 0 && fd <= 2 && (tty_mask >> fd & 1)) {
		return 1;
	}
	return __real_isatty(fd);
}

static void __attribute__((noinline)) fill_stack(int c)
{
	volatile char buf[128 * 1024];
	for (size_t i = 0; i < sizeof buf; i++) {
		buf[i] = (char)c;
	}
}

int __real_open(const char *, int, ...);
int __wrap_open(const char *, int, ...);
int __wrap_open(const char *p, int flags, ...)
{
	char b[4200];
	int mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	return __real_open(redir(p, b, sizeof b), flags, mode);
}


int main(int zargc, char **zargv)
{
	if (zargc < 3) {
		return 3;
	}
	const int reply = atoi(zargv[2]);
	char outp[4200], errp[4200];
	snprintf(outp, sizeof outp, "%s/out", zargv[1]);
	snprintf(errp, sizeof errp, "%s/err", zargv[1]);
	signal(SIGINT, SIG_IGN);

	for (;;) {
		unsigned cwdlen, rootlen, cpu, perturb, argc;
		if (scanf("%u %u %u %u %u", &cwdlen, &rootlen, &cpu, &perturb, &argc) != 5) {
			return 0;
		}
		unsigned *lens = calloc(argc + 1, sizeof *lens);
		for (unsigned i = 0; i < argc; i++) {
			if (scanf("%u", &lens[i]) != 1) {
				return 0;
			}
		}
		if (getchar() != '\n') {
			return 0;
		}
		char *cwd = read_str(cwdlen);
		char *root = read_str(rootlen);
		char **argv = calloc(argc + 1, sizeof *argv);
		for (unsigned i = 0; i < argc; i++) {
			argv[i] = read_str(lens[i]);
		}
		pid_t pid = fork();
		if (pid < 0) {
			dprintf(reply, "-1 0\n");
		} else if (pid == 0) {
			signal(SIGINT, SIG_DFL);
			setpgid(0, 0);
			int o = open(outp, O_WRONLY | O_CREAT | O_TRUNC, 0600);
			int e = open(errp, O_WRONLY | O_CREAT | O_TRUNC, 0600);
			int in = open("/dev/null", O_RDONLY);
			if (o < 0 || e < 0 || in < 0) {
				_exit(97);
			}
			dup2(in, 0);
			dup2(o, 1);
			dup2(e, 2);
			close(reply);
			if (in > 2) close(in);
			if (o > 2) close(o);
			if (e > 2) close(e);
			if (chdir(cwd) != 0) {
				_exit(98);
			}
			snprintf(redirect_root, sizeof redirect_root, "%s", root);
			struct rlimit rl = { cpu, cpu + 5 };
			setrlimit(RLIMIT_CPU, &rl);
			struct rlimit fl = { 256u << 20, 256u << 20 };
			setrlimit(RLIMIT_FSIZE, &fl);
			struct rlimit cl = { 0, 0 };
			setrlimit(RLIMIT_CORE, &cl);
#ifndef ZYGOTE_SAN
			struct rlimit al = { 3ul << 30, 3ul << 30 };
			setrlimit(RLIMIT_AS, &al);
#endif
			alarm(0);
			// What the program finds in memory it never wrote to
#ifndef ZYGOTE_SAN
			if (perturb & 0xff) {
				mallopt(M_PERTURB, (int)(perturb & 0xff));
			}
#endif
			fill_stack((int)(perturb & 0xff));
			tty_mask = perturb >> 8;
			exit(selint_main((int)argc, argv));
		} else {
			int st = 0;
			struct rusage ru;
			while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {
			}
			long us = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000000L + ru.ru_utime.tv_usec + ru.ru_stime.tv_usec;
			dprintf(reply, "%d %ld\n", st, us);
		}
		for (unsigned i = 0; i < argc; i++) {
			free(argv[i]);
		}
		free(argv);
		free(lens);
		free(cwd);
		free(root);
	}
}
