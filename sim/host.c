// An embedding program: uses the compiler as a library (the way real_main.c
// and build_data.h offer it), several requests in one process, possibly with
// children of its own.  Runs inside the simulation; every system call below is
// a simulated one.
#include <stdbool.h>
#include <fcntl.h>
#include <locale.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "skull/build_data.h"
#include "skull/real_main.h"

extern int host_argc(int cmd, int req);
extern const char *host_argv(int cmd, int req, int i);
extern int host_nreq(int cmd);
extern void host_before(int cmd, int req);
extern void host_after(int cmd, int req, int ret);
extern void host_own(int cmd, int req, int after, int slot, const void *what, long n);
extern int host_nstray(int cmd);
extern int host_stray_steps(int cmd, int i);
extern int host_stray_status(int cmd, int i);
extern void host_stray_seen(int cmd, int i, int pid_ok, int status);

#define MAXF 8

// things the calling program does between its requests
static void copy_file(char *spec) {
	char *to = strchr(spec, ':');
	if (!to) return;
	*to++ = 0;
	static char buf[1 << 16];
	int in = open(spec, O_RDONLY | O_CLOEXEC);
	if (in < 0) return;
	ssize_t n = 0, k;
	while ((k = read(in, buf + n, sizeof buf - (size_t)n)) > 0) n += k;
	close(in);
	int out = open(to, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
	if (out < 0) return;
	for (ssize_t at = 0; at < n; at += k) if ((k = write(out, buf + at, (size_t)(n - at))) <= 0) abort();
	close(out);
}
static void on_signal(int s) { (void)s; }
// a program with habits of its own
static void own_habits(void) {
	signal(SIGCHLD, on_signal); signal(SIGINT, on_signal); signal(SIGQUIT, on_signal); signal(SIGTERM, on_signal); signal(SIGSEGV, SIG_DFL);
	signal(SIGHUP, SIG_IGN); signal(SIGPIPE, SIG_IGN);
	umask(027);
	sigset_t s; sigemptyset(&s); sigaddset(&s, SIGUSR1); sigaddset(&s, SIGALRM); sigprocmask(SIG_BLOCK, &s, NULL);
}
// what was handed over, and what the C library keeps for this program
static void mine(int cmd, int req, int after, char **files, int n, const char *out, const char *extra) {
	for (int i = 0; i < n; i++) host_own(cmd, req, after, 7, files[i], (long)strlen(files[i]) + 1);
	host_own(cmd, req, after, 7, out ? out : "", out ? (long)strlen(out) + 1 : 0);
	host_own(cmd, req, after, 7, extra ? extra : "", extra ? (long)strlen(extra) + 1 : 0);
	BuildData b = BUILD_DATA;
	char f[16] = { b.quiet, b.werror, b.color, b.debug, b.preprocess, b.compile_only, b.asm_backend, b.c_backend, b.optimize1, b.optimize2, b.optimize3, b.llvm_no_verify, b.out_file == out, b.extra_args == extra };
	host_own(cmd, req, after, 8, f, sizeof f);
	static const int cat[] = { LC_NUMERIC, LC_COLLATE, LC_MONETARY, LC_TIME, LC_MESSAGES };
	for (int i = 0; i < 5; i++) { const char *l = setlocale(cat[i], NULL); if (l) host_own(cmd, req, after, 9, l, (long)strlen(l) + 1); }
}
static void prepare(const char *what) {
	char *w = strdup(what);
	if (!strcmp(w, "-@C")) setlocale(LC_ALL, "C");
	else if (!strcmp(w, "-@own")) own_habits();
	else if (!strncmp(w, "-@cd:", 5)) { if (chdir(w + 5)) abort(); }
	else if (!strncmp(w, "-@cp:", 5)) copy_file(w + 5);
	else if (!strncmp(w, "-@rm:", 5)) unlink(w + 5);
	free(w);
}

static int request(int cmd, int req) {
	char cwd[1400];
	if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
	BuildData bd;
	memset(&bd, 0, sizeof bd);
	char *files[MAXF + 2] = { (char *)"host" };
	int n = 1;
	char *out = NULL, *extra = NULL;
	int argc = host_argc(cmd, req);
	for (int i = 0; i < argc; i++) {
		const char *a = host_argv(cmd, req, i);
		if (!strncmp(a, "-@", 2)) prepare(a);
		else if (!strcmp(a, "-c")) bd.compile_only = true;
		else if (!strcmp(a, "-S")) bd.asm_backend = true;
		else if (!strcmp(a, "-E")) bd.preprocess = true;
		else if (!strcmp(a, "-g")) bd.debug = true;
		else if (!strcmp(a, "-q")) bd.quiet = true;
		else if (!strcmp(a, "-O1")) bd.optimize1 = true;
		else if (!strcmp(a, "-O2")) bd.optimize2 = true;
		else if (!strcmp(a, "-O3")) bd.optimize3 = true;
		else if (!strcmp(a, "--c-backend")) bd.c_backend = true;
		else if (!strcmp(a, "--werror")) bd.werror = true;
		else if (!strcmp(a, "--color")) bd.color = true;
		else if (!strcmp(a, "--llvm-no-verify")) bd.llvm_no_verify = true;
		else if (!strcmp(a, "-o")) out = strdup(host_argv(cmd, req, ++i));
		else if (!strcmp(a, "--")) {
			extra = strdup(host_argv(cmd, req, ++i));
		}
		else if (n <= MAXF) files[n++] = strdup(a);
	}
	bd.out_file = out;
	bd.extra_args = extra;
	bd.filename = files[1];
	BUILD_DATA = bd;
	host_before(cmd, req);
	mine(cmd, req, 0, files, n, out, extra);
	int ret = real_main(n, files);
	fflush(stdout);
	host_after(cmd, req, ret);
	mine(cmd, req, 1, files, n, out, extra);
	if (cwd[0] && chdir(cwd)) abort();
	// what the request was made of belongs to this program
	free(out);
	free(extra);
	for (int i = 1; i < n; i++) free(files[i]);
	memset(&BUILD_DATA, 0, sizeof BUILD_DATA);
	return ret;
}

int host_main(int cmd) {
	pid_t stray[4];
	int ns = host_nstray(cmd);
	for (int i = 0; i < ns; i++) {
		stray[i] = fork();
		if (stray[i] == 0) {
			for (int k = host_stray_steps(cmd, i); k > 0; k--) access("/", F_OK);
			int st = host_stray_status(cmd, i);
			if (st >= 1000) { raise(st - 1000); _exit(1); }
			_exit(st);
		}
	}
	// still in the buffer when a request begins; belongs to this program alone
	if (ns) fputs("host: begin\n", stdout);
	int rc = 0;
	for (int r = 0; r < host_nreq(cmd); r++) {
		int e = request(cmd, r);
		if (e) rc = 1;
	}
	for (int i = 0; i < ns; i++) {
		int st = -1;
		pid_t r = stray[i] > 0 ? waitpid(stray[i], &st, 0) : -1;
		host_stray_seen(cmd, i, r == stray[i], st);
	}
	return rc;
}
