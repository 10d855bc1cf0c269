// Stand-in for /bin/sh and the C compiler.  Runs in the child the compiler
// under test forked, after its execve: reads the object file and writes the
// "executable" through the simulated kernel, one system call at a time, so the
// scheduler and the fault plan reach every point of the link step.
#include "kern.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static long sys(long nr, long a = 0, long b = 0, long c = 0, long d = 0) { return k_syscall(nr, a, b, c, d, 0, 0); }
static void __attribute__((noreturn)) bye(int code) { sys(SYS_exit_group, code); __builtin_unreachable(); }
static void say(const char *s) {
	size_t n = strlen(s), o = 0;
	while (o < n) { long r = sys(SYS_write, 2, (long)(s + o), (long)(n - o)); if (r <= 0) return; o += (size_t)r; }
}

enum { MAXW = 64 };
static char words[MAXW][1600];
static int nwords;
static char heapbuf[65536];

static CcRun *cc_new(const char *cmdline) {
	if (W->ncc >= MAXCC) return NULL;
	CcRun *c = &W->cc[W->ncc++];
	memset((void *)c, 0, sizeof *c);
	Proc *p = &W->proc[self_slot];
	c->key = p->key; c->cmd = p->cmd; c->parent_pid = p->parent >= 0 ? W->proc[p->parent].pid : 1;
	c->started = 1; c->step_start = W->step; c->cmdline = w_str(cmdline);
	for (int i = 0; i < MAXFD && i < 64; i++) if (p->fds[i]) {
		c->fdmask |= 1ULL << i;
		Ofd *o = &W->ofd[p->fds[i] - 1];
		if (i > 2 && o->opener != -2) c->fdmask_leak |= 1ULL << i;
	}
	return c;
}

// One step of the tool: the plan may end it here.
static void step(void) {
	Fault *f = k_fault(C_CC);
	if (f && (f->kind == F_CCEXIT || f->kind == F_CCSIG)) {
		k_fired(f);
		if (f->kind == F_CCEXIT) { say("cc: simulated failure\n"); bye(f->a); }
		k_die(f->a, 0, 0);
	}
}

static int run_cc(int argc, char **argv, CcRun *run) {
	const char *out = "a.out";
	const char *in[8]; int nin = 0;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "-o") && i + 1 < argc) { out = argv[++i]; continue; }
		if (argv[i][0] == '-' && argv[i][1]) continue;
		if (nin < 8) in[nin++] = argv[i];
	}
	Proc *p = &W->proc[self_slot];
	char full[PATHMAX];
	if (run) {
		snprintf(full, sizeof full, "%s%s%s", *out == '/' ? "" : p->cwd, *out == '/' ? "" : "/", out);
		run->out = w_str(full);
		for (int i = 0; i < nin; i++) {
			snprintf(full, sizeof full, "%s%s%s", *in[i] == '/' ? "" : p->cwd, *in[i] == '/' ? "" : "/", in[i]);
			run->in_path[run->ninputs] = w_str(full);
			int ino = w_lookup(full);
			run->in_hash0[run->ninputs] = ino > 0 ? fnv(W->heap + W->ino[ino].data, W->ino[ino].size, FNV0) : 0;
			run->in_size[run->ninputs] = ino > 0 ? W->ino[ino].size : 0;
			run->ninputs++;
		}
	}
	step();
	if (!nin) { say("cc: fatal error: no input files\n"); return 1; }
	for (int i = 0; i < nin; i++) if (!strcmp(in[i], out)) { say("cc: fatal error: input file is the same as output file\n"); return 1; }
	struct stat st;
	if (!sys(SYS_stat, (long)out, (long)&st) && S_ISDIR(st.st_mode)) { say("ld: cannot open output file: Is a directory\n"); return 1; }
	uint64_t h[8], sz[8];
	for (int i = 0; i < nin; i++) {
		step();
		long fd = sys(SYS_open, (long)in[i], O_RDONLY | O_CLOEXEC);
		if (fd < 0) { say("cc: error: "); say(in[i]); say(": cannot open input\n"); return 1; }
		h[i] = FNV0; sz[i] = 0;
		for (;;) {
			step();
			long n = sys(SYS_read, fd, (long)heapbuf, 16384);
			if (n < 0) { say("cc: read error\n"); sys(SYS_close, fd); return 1; }
			if (!n) break;
			h[i] = fnv(heapbuf, (size_t)n, h[i]); sz[i] += (uint64_t)n;
		}
		sys(SYS_close, fd);
		if (strlen(in[i]) > 2 && !strcmp(in[i] + strlen(in[i]) - 2, ".o") && sz[i] < 64) { say("ld: file truncated\n"); return 1; }
	}
	step();
	if (!sys(SYS_stat, (long)out, (long)&st) && S_ISREG(st.st_mode)) sys(SYS_unlink, (long)out);
	long fd = sys(SYS_open, (long)out, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0777);
	if (fd < 0) { say("ld: cannot open output file\n"); return 1; }
	size_t n = (size_t)snprintf(heapbuf, sizeof heapbuf, "SIMEXE\n");
	for (int i = 1; i < argc && n < 40000; i++) {
		if (!strcmp(argv[i], "-o")) { i++; continue; }
		n += (size_t)snprintf(heapbuf + n, sizeof heapbuf - n, "arg %s\n", argv[i]);
	}
	for (int i = 0; i < nin; i++) n += (size_t)snprintf(heapbuf + n, sizeof heapbuf - n, "in %d size %llu hash %llx\n", i, (unsigned long long)sz[i], (unsigned long long)h[i]);
	while (n < 3000) heapbuf[n++] = '.';
	heapbuf[n++] = '\n';
	size_t o = 0;
	while (o < n) {
		step();
		size_t k = n - o > 1100 ? 1100 : n - o;
		long r = sys(SYS_write, fd, (long)(heapbuf + o), (long)k);
		if (r <= 0) { say("ld: final link failed: write error\n"); sys(SYS_close, fd); sys(SYS_unlink, (long)out); return 1; }
		o += (size_t)r;
	}
	sys(SYS_close, fd);
	step();
	sys(SYS_chmod, (long)out, 0755);
	step();
	return 0;
}

static const char *base(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }

static int run_words(CcRun *run) {
	char *av[MAXW + 1];
	for (int i = 0; i < nwords; i++) av[i] = words[i];
	av[nwords] = NULL;
	if (!nwords) return 0;
	const char *b = base(words[0]);
	if (!strcmp(b, "cc") || !strcmp(b, "gcc") || !strcmp(b, "clang") || !strcmp(b, "c99")) return run_cc(nwords, av, run);
	if (run) run->not_cc = 1;
	if (!strcmp(b, "exec")) { // exec cc ...
		memmove(words[0], words[1], sizeof words[0] * (MAXW - 1)); nwords--;
		if (run) run->not_cc = 0;
		return run_words(run);
	}
	if (!strcmp(b, "rm") || !strcmp(b, "touch")) {
		for (int i = 1; i < nwords; i++) if (words[i][0] != '-') {
			if (b[0] == 'r') sys(SYS_unlink, (long)words[i]);
			else { long fd = sys(SYS_open, (long)words[i], O_WRONLY | O_CREAT, 0666); if (fd >= 0) sys(SYS_close, fd); }
		}
		return 0;
	}
	if (!strcmp(b, "true") || !strcmp(b, ":")) return 0;
	if (!strcmp(b, "exit")) return nwords > 1 ? (words[1][0] - '0') : 0;
	say("sh: "); say(words[0]); say(": not found\n");
	return 127;
}

// Enough of a POSIX shell: words, quotes, separators, redirections, && and ||.
static int run_sh(const char *cmd, CcRun *run) {
	const char *s = cmd;
	int status = 0, skip = 0, ncmds = 0;
	nwords = 0;
	for (;;) {
		while (*s == ' ' || *s == '\t') s++;
		bool end = !*s;
		if (end || *s == ';' || *s == '\n' || *s == '&' || *s == '|') {
			if (nwords) {
				if (!skip) { status = run_words(ncmds++ ? NULL : run); if (ncmds > 1 && run) run->weird = 1; }
				nwords = 0;
			}
			if (end) break;
			if (s[0] == '&' && s[1] == '&') { skip = status != 0; s += 2; }
			else if (s[0] == '|' && s[1] == '|') { skip = status == 0; s += 2; }
			else { if (*s != '\n' && *s != ';') { if (run) run->weird = 1; } skip = 0; s++; }
			continue;
		}
		if (*s == '#') { while (*s && *s != '\n') s++; continue; }
		if (*s == '(' || *s == ')') { say("sh: syntax error\n"); return 2; }
		bool redir = false;
		if (*s == '>' || *s == '<') { redir = *s == '>'; s++; if (*s == '>') s++; if (run) run->weird = 1; while (*s == ' ') s++; if (!redir) {} }
		if (nwords >= MAXW) { say("sh: too many words\n"); return 2; }
		char *w = words[nwords]; size_t n = 0; bool any = false;
		auto put = [&](char c) { if (n < sizeof words[0] - 1) w[n++] = c; };
		while (*s && !strchr(" \t\n;&|<>()", *s)) {
			any = true;
			if (*s == '\'') {
				s++; while (*s && *s != '\'') put(*s++);
				if (!*s) { say("sh: unterminated quoted string\n"); return 2; }
				s++;
			}
			else if (*s == '"') {
				s++;
				while (*s && *s != '"') {
					if (*s == '\\' && s[1] && strchr("$`\"\\\n", s[1])) { s++; if (*s != '\n') put(*s); s++; }
					else if (*s == '$' || *s == '`') goto dollar_in;
					else put(*s++);
					continue;
				dollar_in:
					if (run) run->weird = 1;
					if (*s == '`') { s++; while (*s && *s != '`') s++; if (!*s) { say("sh: unterminated backquote\n"); return 2; } s++; }
					else if (s[1] == '(') { int dep = 0; do { if (*s == '(') dep++; if (*s == ')') dep--; s++; } while (*s && dep); }
					else if (s[1] == '{') { while (*s && *s != '}') s++; if (*s) s++; }
					else { s++; if (*s == '$' || (*s >= '0' && *s <= '9') || *s == '?' || *s == '#' || *s == '@' || *s == '*' || *s == '!') s++; else if ((*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z') || *s == '_') while ((*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z') || (*s >= '0' && *s <= '9') || *s == '_') s++; else put('$'); }
				}
				if (!*s) { say("sh: unterminated quoted string\n"); return 2; }
				s++;
			}
			else if (*s == '\\') { s++; if (*s) put(*s++); }
			else if (*s == '$' || *s == '`') {
				if (run) run->weird = 1;
				if (*s == '`') { s++; while (*s && *s != '`') s++; if (*s) s++; }
				else { s++; while ((*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z') || (*s >= '0' && *s <= '9') || *s == '_' || *s == '$') s++; }
			}
			else put(*s++);
		}
		w[n] = 0;
		if (!any) { if (*s == '(' || *s == ')') { say("sh: syntax error\n"); return 2; } }
		if (redir) { long fd = sys(SYS_open, (long)w, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd >= 0) sys(SYS_close, fd); }
		else if (any) nwords++;
	}
	return status;
}

extern "C" void stub_exec(const char *path, char *const *argv, char *const *) {
	static char line[8000];
	size_t n = 0;
	for (int i = 0; argv[i]; i++) n += (size_t)snprintf(line + n, n < sizeof line ? sizeof line - n : 0, "%s%s", i ? " " : "", argv[i]);
	CcRun *run = cc_new(line);
	const char *b = base(path);
	int st;
	if (!strcmp(b, "sh") || !strcmp(b, "bash") || !strcmp(b, "dash")) {
		if (run) run->how = 1;
		int i = 1;
		bool c = false;
		for (; argv[i] && argv[i][0] == '-'; i++) if (strchr(argv[i], 'c')) c = true;
		if (!c || !argv[i]) { say("sh: cannot execute this file\n"); bye(2); } // a binary the kernel refused, run as a script
		static char copy[8000];
		snprintf(copy, sizeof copy, "%s", argv[i]);
		st = run_sh(copy, run);
	}
	else {
		nwords = 0;
		for (int i = 0; argv[i] && i < MAXW; i++) snprintf(words[nwords++], sizeof words[0], "%s", argv[i]);
		snprintf(words[0], sizeof words[0], "%s", path);
		st = run_words(run);
	}
	bye(st);
}
