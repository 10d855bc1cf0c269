// Simulated kernel.  Code in this file that runs inside a simulated process
// must not make real system calls other than through raw6(), and must not
// allocate.
#include "kern.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/sysinfo.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <poll.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

World *W;
int self_slot = -1;
static volatile int in_kernel;
static jmp_buf efault_jmp;
static char altstack[128 << 10];

asm(R"(
	.text
	.globl raw6
	.globl raw6_end
	.type raw6,@function
raw6:
	mov %rdi,%rax
	mov %rsi,%rdi
	mov %rdx,%rsi
	mov %rcx,%rdx
	mov %r8,%r10
	mov %r9,%r8
	mov 8(%rsp),%r9
	syscall
raw6_end:
	ret
	.size raw6,.-raw6
)");
extern "C" char raw6_end[];

// ------------------------------------------------------------ small helpers
extern "C" uint64_t fnv(const void *p, size_t n, uint64_t h) {
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
	return h;
}
static uint64_t mix64(uint64_t z) {
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
extern "C" uint64_t k_rng(uint64_t salt, uint64_t n) { return mix64(W->cfg.seed ^ mix64(salt * 0x51ed27f1 + n)); }
extern "C" void k_mix(uint64_t v) { W->hash = mix64(W->hash ^ v); }

static void herr(const char *m) {
	if (!W->harness_err) {
		W->harness_err = 1;
		snprintf(W->harness_msg, sizeof W->harness_msg, "%s", m);
	}
}

// ------------------------------------------------------------- shared heap
extern "C" uint64_t w_alloc(uint64_t n) {
	uint64_t o = W->heap_top;
	n = (n + 15) & ~15ULL;
	if (o + n > W->heap_cap) { herr("shared heap exhausted"); return 0; }
	W->heap_top += n;
	return o;
}
extern "C" uint32_t w_str(const char *s) {
	size_t n = strlen(s) + 1;
	uint64_t o = w_alloc(n);
	if (o || W->heap_top) memcpy(W->heap + o, s, n);
	return (uint32_t)o;
}

extern "C" void w_reset(void) {
	memset((char *)W + offsetof(World, cfg), 0, offsetof(World, heap) - offsetof(World, cfg));
	W->heap_cap = SHEAP;
	W->heap_top = 16;
	W->hash = FNV0;
	W->cur = -1;
	// root directory is inode 1
	W->ino[1].used = 1; W->ino[1].type = T_DIR; W->ino[1].mode = 0755; W->ino[1].nlink = 1;
}

static int ino_new(int type, int mode) {
	for (int i = 2; i < MAXINO; i++) if (!W->ino[i].used) {
		Inode *n = &W->ino[i];
		memset((void *)n, 0, sizeof *n);
		n->used = 1; n->type = type; n->mode = mode; n->fresh = 1; n->mtime = W->cfg.clock0 + W->clock + 1;
		return i;
	}
	herr("out of inodes");
	return -ENOSPC;
}
static void ino_gc(int i) {
	Inode *n = &W->ino[i];
	if (i > 1 && n->used && n->nlink <= 0 && n->opens <= 0 && !(n->tracked && n->reads)) n->used = 0;   // what was delivered is needed at the end of the phase
}
static int dent_find(int dir, const char *name) {
	for (uint32_t i = 0; i < W->ndent; i++)
		if (W->dent[i].dir == dir && W->dent[i].ino && !strcmp(W->dent[i].name, name)) return (int)i;
	return -1;
}
static int dent_add(int dir, const char *name, int ino) {
	uint32_t i;
	for (i = 0; i < W->ndent; i++) if (!W->dent[i].ino) break;
	if (i == W->ndent) { if (W->ndent == MAXDENT) { herr("out of dirents"); return -ENOSPC; } W->ndent++; }
	W->dent[i].dir = dir; W->dent[i].ino = ino;
	snprintf(W->dent[i].name, sizeof W->dent[i].name, "%s", name);
	W->ino[ino].nlink++;
	return 0;
}
static void dent_del(int d) {
	int ino = W->dent[d].ino;
	W->dent[d].ino = 0; W->dent[d].dir = 0;
	W->ino[ino].nlink--;
	ino_gc(ino);
}
static int ino_reserve(Inode *n, uint64_t sz) {
	if (sz <= n->cap) return 0;
	uint64_t c = n->cap ? n->cap : 256;
	while (c < sz) c *= 2;
	uint64_t o = w_alloc(c);
	if (!o) return -ENOSPC;
	if (n->size) memcpy(W->heap + o, W->heap + n->data, n->size);
	n->data = o; n->cap = c;
	return 0;
}
extern "C" void w_setdata(int ino, const void *data, uint64_t n) {
	Inode *i = &W->ino[ino];
	if (ino_reserve(i, n ? n : 1) < 0) return;
	if (n) memcpy(W->heap + i->data, data, n);
	i->size = n;
}

// ------------------------------------------------------------------- paths
// Makes an absolute path with "." and ".." and double slashes removed.
// (No symbolic links exist, so ".." is lexical; the walk still checks that
// each component before a ".." exists.)
struct Res { int dir, ino; char name[256]; char path[PATHMAX]; int trail; };

static int may(const Inode *n, int bit) { return (n->mode >> 6) & bit; }

static int resolve(const char *base, const char *p, Res *r, int checkperm, int follow = 1, int depth = 0) {
	if (!*p) return -ENOENT;
	if (strlen(p) >= 4096) return -ENAMETOOLONG;
	char full[6000];
	if (*p == '/') snprintf(full, sizeof full, "%s", p);
	else snprintf(full, sizeof full, "%s/%s", base, p);
	int stack[64], sp = 0; stack[0] = 1;
	size_t lens[64]; lens[0] = 0;
	r->path[0] = 0;
	r->dir = 1; r->ino = 1; r->name[0] = 0; r->trail = 0;
	const char *s = full;
	int cur = 1;
	for (;;) {
		while (*s == '/') s++;
		if (!*s) break;
		const char *e = s;
		while (*e && *e != '/') e++;
		size_t len = (size_t)(e - s);
		if (W->ino[cur].type != T_DIR) return -ENOTDIR;
		if (checkperm && !may(&W->ino[cur], 1)) return -EACCES;
		if (len == 1 && s[0] == '.') { s = e; r->trail = 1; continue; }
		if (len == 2 && s[0] == '.' && s[1] == '.') {
			if (sp) { sp--; cur = stack[sp]; r->path[lens[sp]] = 0; }
			r->ino = cur; r->dir = sp ? stack[sp - 1] : 1; r->trail = 1;
			s = e; continue;
		}
		if (len > 255) return -ENAMETOOLONG;
		char nm[256]; memcpy(nm, s, len); nm[len] = 0;
		int d = dent_find(cur, nm);
		size_t pl = strlen(r->path);
		if (pl + len + 2 >= PATHMAX) return -ENAMETOOLONG;
		r->path[pl] = '/'; memcpy(r->path + pl + 1, nm, len + 1);
		const char *q = e; while (*q == '/') q++;
		r->dir = cur; snprintf(r->name, sizeof r->name, "%s", nm);
		if (d < 0) {
			if (*q) return -ENOENT;
			r->ino = 0; r->trail = (*e == '/');
			return 0;
		}
		cur = W->dent[d].ino; r->ino = cur;
		if (W->ino[cur].type == T_LINK && (follow || *q)) {
			if (depth > 38) return -ELOOP;
			char nx[8200]; const char *t = (const char *)W->heap + W->ino[cur].data; int tn = (int)W->ino[cur].size;
			r->path[pl] = 0;
			if (tn && t[0] == '/') snprintf(nx, sizeof nx, "%.*s%s", tn, t, e);
			else snprintf(nx, sizeof nx, "%s/%.*s%s", r->path, tn, t, e);
			return resolve("/", nx, r, checkperm, follow, depth + 1);
		}
		if (sp + 1 >= 63) return -ELOOP;
		stack[++sp] = cur; lens[sp] = pl + 1 + len;
		r->trail = (*e == '/');
		s = e;
	}
	if (r->trail && r->ino && W->ino[r->ino].type != T_DIR) return -ENOTDIR;
	if (!r->path[0]) strcpy(r->path, "/");
	return 0;
}

extern "C" int w_lookup(const char *abspath) {
	Res r; int e = resolve("/", abspath, &r, 0);
	if (e < 0) return e;
	return r.ino ? r.ino : -ENOENT;
}
extern "C" int w_mkdirs(const char *path, int mode) {
	char b[PATHMAX]; snprintf(b, sizeof b, "%s", path);
	for (char *s = b + 1;; s++) {
		if (*s == '/' || !*s) {
			char c = *s; *s = 0;
			Res r; int e = resolve("/", b, &r, 0);
			if (e < 0) return e;
			if (!r.ino) { int i = ino_new(T_DIR, mode); W->ino[i].fresh = 0; dent_add(r.dir, r.name, i); }
			*s = c;
			if (!c) break;
		}
	}
	return w_lookup(path);
}
extern "C" int w_mkfile(const char *path, const void *data, uint64_t n, int mode) {
	Res r; int e = resolve("/", path, &r, 0);
	if (e < 0) return e;
	int i = r.ino;
	if (!i) { i = ino_new(T_FILE, mode); dent_add(r.dir, r.name, i); }
	w_setdata(i, data, n);
	W->ino[i].fresh = 0; W->ino[i].dsize = n; W->ino[i].mode = mode; W->ino[i].mtime = 0;
	return i;
}
extern "C" void w_rm(const char *p) {
	Res r; if (resolve("/", p, &r, 0) < 0 || !r.ino) return;
	int d = dent_find(r.dir, r.name); if (d >= 0) dent_del(d);
}

// Whatever was written since the start and never fsynced may be lost, torn or
// zero filled after power loss.
extern "C" void w_power_loss(uint64_t seed) {
	for (int i = 2; i < MAXINO; i++) {
		Inode *n = &W->ino[i];
		if (!n->used || n->type != T_FILE) continue;
		n->opens = 0;
		if (!n->dirty && !n->fresh) continue;
		uint64_t r = mix64(seed ^ mix64(i));
		if (n->fresh && r % 4 == 0) { // the directory entry never reached the disk
			for (uint32_t d = 0; d < W->ndent; d++) if (W->dent[d].ino == i) dent_del((int)d);
			continue;
		}
		uint64_t sz = n->size;
		switch ((r >> 8) % 4) {
			case 0: break;
			case 1: n->size = 0; break;
			case 2: n->size = sz ? (r >> 16) % (sz + 1) : 0; break;
			default: { // size reached the disk, tail blocks did not
				uint64_t k = sz ? (r >> 16) % (sz + 1) : 0;
				memset(W->heap + n->data + k, 0, sz - k);
			}
		}
	}
	for (int i = 2; i < MAXINO; i++) ino_gc(i);
}

// Forget processes, events and faults; keep the files.
extern "C" void w_restart(void) {
	for (int i = 0; i < MAXOFD; i++) W->ofd[i].used = 0;
	memset(W->proc, 0, sizeof W->proc);
	for (int i = 1; i < MAXINO; i++) {
		Inode *n = &W->ino[i];
		if (!n->used) continue;
		n->opens = 0; n->dirty = 0; n->fresh = 0; n->dsize = n->size; n->deliv_hi = 0; n->reads = 0; n->deliv = n->deliv_cap = n->deliv_run = 0; n->neof = 0; n->tracked = 0;
		if (n->type == T_STREAM || n->type == T_PIPE) n->used = 0;
		ino_gc(i);
	}
	W->nev = W->nmut = W->nfault = W->npick = W->npicklog = W->nedit = W->ncmd = W->ncc = W->nprocs = W->nimp = W->nflog = 0;
	W->cur = -1; W->done = 0; W->deadlock = W->livelock = W->power = 0;
	W->step = 0; W->nswitch = 0;
	memset(W->cmd, 0, sizeof W->cmd);
	memset(W->fault, 0, sizeof W->fault);
	memset(W->cc, 0, sizeof W->cc);
}

// --------------------------------------------------------------- scheduling
static void fut_wake(uint32_t *p) { raw6(SYS_futex, (long)p, FUTEX_WAKE, 64, 0, 0, 0); }
static void fut_wait(uint32_t *p, uint32_t v) { raw6(SYS_futex, (long)p, FUTEX_WAIT, (long)v, 0, 0, 0); }

static void finish_run(void) {
	__atomic_store_n(&W->done, 1, __ATOMIC_SEQ_CST);
	fut_wake(&W->done);
}
static void wait_token(void) {
	Proc *p = &W->proc[self_slot];
	while (!__atomic_load_n(&p->go, __ATOMIC_SEQ_CST)) fut_wait(&p->go, 0);
	__atomic_store_n(&p->go, 0, __ATOMIC_SEQ_CST);
}
static void give_token(int slot) {
	Proc *p = &W->proc[slot];
	W->cur = slot;
	__atomic_store_n(&p->go, 1, __ATOMIC_SEQ_CST);
	fut_wake(&p->go);
}

static int choose_next(int me) {
	int run[MAXPROC], n = 0, all[MAXPROC], na = 0;
	for (int i = 0; i < MAXPROC; i++) if (W->proc[i].state == P_RUN) {
		all[na++] = i;
		if (W->proc[i].delay_until <= W->step) run[n++] = i;
	}
	if (!na) return -1;
	if (!n) { // everything is stalled: time passes until the first stall is over
		uint32_t best = ~0u; int b = all[0];
		for (int i = 0; i < na; i++) if (W->proc[all[i]].delay_until < best) { best = W->proc[all[i]].delay_until; b = all[i]; }
		W->step = best;
		run[0] = b; n = 1;
	}
	int def = -1;
	for (int i = 0; i < n; i++) if (run[i] == me) def = me;
	if (def < 0) def = run[0];
	int pick = def;
	if (W->cfg.sched_permille && n > 1) {
		uint64_t h = mix64(W->cfg.sched_seed ^ mix64(W->step));
		if (h % 1000 < W->cfg.sched_permille) pick = run[(h >> 20) % n];
	}
	else if (W->npick && n > 1) {
		for (uint32_t i = 0; i < W->npick; i++) if (W->pick[i].step == W->step) {
			for (int j = 0; j < n; j++) if (run[j] == W->pick[i].slot) pick = run[j];
		}
	}
	if (pick != def && W->npicklog < MAXPICK) {
		W->picklog[W->npicklog].step = W->step;
		W->picklog[W->npicklog++].slot = pick;
	}
	return pick;
}

// Called by the running process after each system call, or when it blocks.
static void schedule(void) {
	W->step++;
	W->clock += 1000 + mix64(W->step) % 40000;
	int next = choose_next(self_slot);
	if (next == self_slot) return;
	if (next < 0) {
		// nobody can run: if a process is still alive this is a deadlock
		for (int i = 0; i < MAXPROC; i++) {
			int s = W->proc[i].state;
			if (s == P_WAIT || s == P_VFORK || s == P_PIPE) W->deadlock = 1;
		}
		finish_run();
	}
	else { W->nswitch++; k_mix(0x5000 + next); give_token(next); }
	wait_token();
}

static int ofd_unref(int o);
static void wake_pipe(void) { for (int i = 0; i < MAXPROC; i++) if (W->proc[i].state == P_PIPE) W->proc[i].state = P_RUN; }

static void proc_end(int status) {
	Proc *p = &W->proc[self_slot];
	p->fds_at_exit = 0;
	for (int i = 3; i < 64; i++) if (p->fds[i] && W->ofd[p->fds[i] - 1].opener != -2 && W->ofd[p->fds[i] - 1].hostfd < 0) p->fds_at_exit |= 1ULL << i;
	for (int i = 0; i < MAXFD; i++) if (p->fds[i]) { ofd_unref(p->fds[i] - 1); p->fds[i] = 0; }
	p->status = status; p->exited = 1; p->end_step = W->step;
	k_mix(0xdead0000u + (uint32_t)status);
	if (p->stub) for (uint32_t i = 0; i < W->ncc; i++) if (W->cc[i].key == p->key && !W->cc[i].ended) {
		CcRun *c = &W->cc[i];
		c->ended = 1; c->status = status; c->step_end = W->step;
		for (int k = 0; k < c->ninputs && k < 8; k++) {
			int in = w_lookup(w_cstr(c->in_path[k]));
			c->in_hash1[k] = in > 0 ? fnv(W->heap + W->ino[in].data, W->ino[in].size, FNV0) : 0;
		}
	}
	for (int i = 0; i < MAXPROC; i++) { // orphans
		Proc *c = &W->proc[i];
		if (c->parent == self_slot && c->state != P_FREE) {
			c->parent = -1;
			if (c->state == P_ZOMBIE) c->state = P_DEAD;
		}
	}
	p->state = P_DEAD;
	if (p->parent >= 0) {
		Proc *pp = &W->proc[p->parent];
		if (!(pp->sigign & (1ULL << SIGCHLD))) p->state = P_ZOMBIE;
		if (pp->state == P_WAIT) pp->state = P_RUN;
		if (pp->state == P_VFORK && pp->vfork_child == self_slot) pp->state = P_RUN;
	}
	wake_pipe();
}
static void __attribute__((noreturn)) proc_gone(void) {
	W->step++;
	int next = choose_next(-1);
	if (next < 0) {
		for (int i = 0; i < MAXPROC; i++) {
			int s = W->proc[i].state;
			if (s == P_WAIT || s == P_VFORK || s == P_PIPE) W->deadlock = 1;
		}
		finish_run();
	}
	else give_token(next);
	for (;;) raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}
extern "C" void k_die(int signo, uint64_t rip, uint64_t addr) {
	Proc *p = &W->proc[self_slot];
	p->crash_rip = rip; p->crash_addr = addr;
	if (signo == SIGSEGV || signo == SIGBUS || signo == SIGILL || signo == SIGFPE || signo == SIGABRT) p->crashed = signo;
	proc_end(signo & 127);
	proc_gone();
}
static void __attribute__((noreturn)) halt_all(void) {
	finish_run();
	for (;;) { wait_token(); }
}

// ------------------------------------------------------------------- faults
extern "C" void k_mut(int op, int ino, const char *path, const char *path2) {
	if (W->nmut >= MAXMUT) return;
	Mut *m = &W->mut[W->nmut++];
	m->step = W->step; m->key = self_slot >= 0 ? W->proc[self_slot].key : -2;
	m->op = op; m->ino = ino; m->stub = self_slot >= 0 ? W->proc[self_slot].stub : 0;
	m->path = w_str(path); m->path2 = path2 ? w_str(path2) : 0;
}

// An action of the outside world (another program) between two system calls.
static void do_edit(int idx) {
	if (idx < 0 || idx >= (int)W->nedit) return;
	Edit *e = &W->edit[idx];
	const char *path = w_cstr(e->path);
	Res r;
	if (resolve("/", path, &r, 0) < 0) return;
	Inode *n = r.ino ? &W->ino[r.ino] : NULL;
	uint8_t tracked = n ? n->tracked : 0;
	switch (e->op) {
		case E_TRUNC: if (n && n->type == T_FILE && e->len < n->size) n->size = e->len; break;
		case E_WRITE: // rewritten in place
			if (n && n->type == T_FILE) w_setdata(r.ino, W->heap + e->data, e->dlen);
			break;
		case E_APPEND:
			if (n && n->type == T_FILE && !ino_reserve(n, n->size + e->dlen)) {
				memcpy(W->heap + n->data + n->size, W->heap + e->data, e->dlen);
				n->size += e->dlen;
			}
			break;
		case E_REPLACE: { // new file renamed over the old one
			int d = dent_find(r.dir, r.name);
			if (d >= 0) dent_del(d);
			int i = ino_new(T_FILE, 0644);
			if (i < 0) break;
			w_setdata(i, W->heap + e->data, e->dlen);
			W->ino[i].tracked = tracked; W->ino[i].fresh = 0;
			dent_add(r.dir, r.name, i);
			break;
		}
		case E_UNLINK: { int d = dent_find(r.dir, r.name); if (d >= 0) dent_del(d); break; }
		case E_CHMOD: if (n) n->mode = (uint16_t)e->len; break;
		case E_MKDIR: if (!n) { int i = ino_new(T_DIR, 0755); if (i > 0) dent_add(r.dir, r.name, i); } break;
		case E_CREATE: if (!n) { int i = ino_new(T_FILE, 0644); if (i > 0) { w_setdata(i, W->heap + e->data, e->dlen); dent_add(r.dir, r.name, i); W->ino[i].fresh = 0; } } break;
	}
	k_mix(0xed17 + idx);
}

static Fault *match(int cls, uint32_t n) {
	int key = W->proc[self_slot].key;
	for (uint32_t i = 0; i < W->nfault; i++) {
		Fault *f = &W->fault[i];
		if (f->cls != cls || (f->key != -1 && f->key != key)) continue;
		if ((uint32_t)f->nth == n || (f->sticky && n > (uint32_t)f->nth)) return f;
	}
	return NULL;
}
extern "C" void k_fired(Fault *f) {
	f->fired++; W->firedk[f->kind][f->cls]++;
	if (W->nflog < 256) { auto *l = &W->flog[W->nflog++]; l->step = W->step; l->fault = (int16_t)(f - W->fault); l->key = (int16_t)W->proc[self_slot].key; }
	k_mix(0xfa000000u + f->kind * 4096u + f->cls * 16u);
}
static void fired(Fault *f) { k_fired(f); }

static int pending_after;  // signal to die of after the current system call

static Fault *apply_common(Fault *f) {
	if (!f) return NULL;
	switch (f->kind) {
		case F_KILL: fired(f); W->proc[self_slot].pendkill = 0; proc_end(f->a & 127); proc_gone();
		case F_KILL_AFTER: fired(f); pending_after = f->a; return NULL;
		case F_POWER: fired(f); W->power = 1; halt_all();
		case F_EDIT: fired(f); do_edit(f->a); return NULL;
		case F_DISK: fired(f); W->disk = f->a; return NULL;
		case F_DELAY: fired(f); W->proc[self_slot].delay_until = W->step + (uint32_t)f->a; if (f->b == 1) W->proc[self_slot].stopped = 1; return NULL;
		default: return f;
	}
}
// Counts an occurrence of class `cls`; returns an error-type fault to apply.
static int outside_request;   // in the host program's own code: its calls never fail
extern "C" Fault *k_fault(int cls) {
	Proc *p = &W->proc[self_slot];
	if (outside_request) return NULL;
	uint32_t n = p->cnt[cls]++;
	if (!W->nfault) return NULL;
	return apply_common(match(cls, n));
}
static long f_errno(Fault *f) { fired(f); return -(long)f->a; }

// -------------------------------------------------------- descriptors, files
static int ofd_new(int ino, int flags, const char *path) {
	for (int i = 0; i < MAXOFD; i++) if (!W->ofd[i].used) {
		Ofd *o = &W->ofd[i];
		o->used = 1; o->ino = ino; o->refs = 1; o->flags = flags; o->pos = 0; o->hostfd = -1; o->wrote = 0;
		o->opener = self_slot >= 0 ? W->proc[self_slot].key : -2;
		snprintf(o->path, sizeof o->path, "%s", path);
		if (ino) {
			Inode *n = &W->ino[ino];
			n->opens++;
			if (n->type == T_PIPE) { if ((flags & O_ACCMODE) == O_RDONLY) n->pr++; else n->pw++; }
		}
		return i;
	}
	return -ENFILE;
}
static int ofd_unref(int i) {
	Ofd *o = &W->ofd[i];
	if (--o->refs > 0) return 0;
	if (o->hostfd >= 0) raw6(SYS_close, o->hostfd, 0, 0, 0, 0, 0);
	if (o->ino) {
		Inode *n = &W->ino[o->ino];
		n->opens--;
		if (n->type == T_PIPE) { if ((o->flags & O_ACCMODE) == O_RDONLY) n->pr--; else n->pw--; wake_pipe(); }
		ino_gc(o->ino);
	}
	o->used = 0;
	return 0;
}
static int fd_new(int ofd, int cloexec, int min) {
	Proc *p = &W->proc[self_slot];
	for (int i = min; i < MAXFD; i++) if (!p->fds[i]) { p->fds[i] = ofd + 1; p->cloexec[i] = cloexec; return i; }
	return -EMFILE;
}
static Ofd *getofd(long fd) {
	Proc *p = &W->proc[self_slot];
	if (fd < 0 || fd >= MAXFD || !p->fds[fd]) return NULL;
	return &W->ofd[p->fds[fd] - 1];
}
static bool bad(const void *p) { return (uintptr_t)p < 4096; }

static bool is_host_path(const char *p) {
	static const char *pre[] = {
		"/usr/lib/locale/", "/usr/share/locale/", "/usr/lib/x86_64-linux-gnu/gconv/",
		"/lib/x86_64-linux-gnu/gconv/", "/usr/lib/gconv/", "/usr/share/i18n/", "/etc/locale.alias",
	};
	for (const char *q : pre) if (!strncmp(p, q, strlen(q))) return true;
	return false;
}
static const char *base_of(long dirfd, int *err) {
	*err = 0;
	if ((int)dirfd == AT_FDCWD) return W->proc[self_slot].cwd;
	Ofd *o = getofd((int)dirfd);
	if (!o) { *err = -EBADF; return NULL; }
	if (!o->ino || W->ino[o->ino].type != T_DIR) { *err = -ENOTDIR; return NULL; }
	return o->path;
}
static int cwd_ok(void) { return w_lookup(W->proc[self_slot].cwd) > 0; }

static int res_at(long dirfd, const char *path, Res *r, int follow = 1) {
	if (bad(path)) return -EFAULT;
	int e = 0;
	const char *b = "/";
	if (*path != '/') {
		b = base_of(dirfd, &e);
		if (e) return e;
		if (!*path) return -ENOENT;
	}
	return resolve(b, path, r, 1, follow);
}
static void log_import(const char *path, long ret, int isdir) {
	if (W->nimp >= MAXIMPOPEN) return;
	auto *m = &W->imp[W->nimp++];
	m->path = w_str(path); m->ret = (int)ret; m->key = W->proc[self_slot].key; m->step = W->step; m->isdir = isdir;
}

static long k_open_inner(long dirfd, const char *path, int flags, int mode, Res *r) {
	int e = res_at(dirfd, path, r, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)));
	if (e < 0) return e;
	if (r->ino && W->ino[r->ino].type == T_LINK && (flags & O_NOFOLLOW) && !(flags & O_PATH)) return -ELOOP;
	int acc = flags & O_ACCMODE;
	Inode *n = r->ino ? &W->ino[r->ino] : NULL;
	if (n && (flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
	if (!n) {
		if (!(flags & O_CREAT)) return -ENOENT;
		if (r->trail) return -EISDIR;
		Inode *d = &W->ino[r->dir];
		if (!may(d, 2) || !may(d, 1)) return -EACCES;
		if (W->disk == 0) { W->firedk[F_DISK][C_OPEN]++; return -ENOSPC; }
		int i = ino_new(T_FILE, mode & 07777 & ~W->proc[self_slot].umask_);
		if (i < 0) return i;
		if ((e = dent_add(r->dir, r->name, i)) < 0) return e;
		r->ino = i; n = &W->ino[i];
		k_mut(M_CREATE, i, r->path, NULL);
	}
	else {
		if (n->type == T_DIR && (acc != O_RDONLY || (flags & O_CREAT))) return -EISDIR;
		if ((flags & O_DIRECTORY) && n->type != T_DIR) return -ENOTDIR;
		if ((flags & O_PATH) == 0) {
			if (acc != O_WRONLY && !may(n, 4)) return -EACCES;
			if (acc != O_RDONLY && !may(n, 2)) return -EACCES;
		}
		if ((flags & O_TRUNC) && acc != O_RDONLY && n->type == T_FILE) {
			if (W->disk >= 0) W->disk += (int64_t)n->size;
			n->size = 0; n->dirty = 1; n->mtime = W->cfg.clock0 + W->clock + 1;
			k_mut(M_TRUNC, r->ino, r->path, NULL);
		}
	}
	int o = ofd_new(r->ino, flags, r->path);
	if (o < 0) return o;
	int fd = fd_new(o, !!(flags & O_CLOEXEC), 0);
	if (fd < 0) { ofd_unref(o); return fd; }
	return fd;
}

static long k_open(long dirfd, const char *path, int flags, int mode) {
	if (bad(path)) return -EFAULT;
	if (*path == '/' && is_host_path(path)) {
		Fault *f = k_fault(C_SYS);
		if (f && f->kind == F_ERR) return f_errno(f);
		if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) return -EACCES;
		long h = raw6(SYS_openat, AT_FDCWD, (long)path, flags | O_CLOEXEC, 0, 0, 0);
		if (h < 0) return h;
		int o = ofd_new(0, flags, path);
		if (o < 0) { raw6(SYS_close, h, 0, 0, 0, 0, 0); return o; }
		W->ofd[o].hostfd = (int)h;
		return fd_new(o, !!(flags & O_CLOEXEC), 0);
	}
	Fault *f = k_fault(C_OPEN);
	Res r; r.path[0] = 0; r.ino = 0;
	long ret = (f && f->kind == F_ERR) ? f_errno(f) : k_open_inner(dirfd, path, flags, mode, &r);
	if (!W->proc[self_slot].stub) {
		char pb[PATHMAX];
		if (!r.path[0]) { // the fault hit: still note which file was meant
			int e; const char *b = *path == '/' ? "/" : base_of(dirfd, &e);
			Res r2; r2.path[0] = 0; r2.ino = 0;
			if (b) resolve(b, path, &r2, 0);
			snprintf(pb, sizeof pb, "%s", r2.path[0] ? r2.path : path);
		}
		else snprintf(pb, sizeof pb, "%s", r.path);
		log_import(pb, ret, (flags & O_DIRECTORY) || (r.ino && W->ino[r.ino].type == T_DIR));
	}
	return ret;
}

static long k_close(long fd) {
	Proc *p = &W->proc[self_slot];
	Ofd *o = getofd(fd);
	if (!o) return -EBADF;
	Fault *f = (o->hostfd < 0) ? k_fault(C_CLOSE) : NULL;
	if (f && f->kind == F_ERR && f->b == 2 && (o->flags & O_ACCMODE) != O_RDONLY) {
		// a delayed write error, as on network file systems and over quota: what was written does not all arrive
		Inode *n = &W->ino[o->ino];
		if (n->type == T_FILE && n->size) { n->size = k_rng(0xc105e, W->step) % n->size; n->dirty = 1; k_mut(M_TRUNC, o->ino, o->path, NULL); }
	}
	ofd_unref(p->fds[fd] - 1);
	p->fds[fd] = 0;
	if (f && f->kind == F_ERR) return f_errno(f); // like Linux: closed all the same
	return 0;
}

static long shorten(long want, int cls) {
	if (want <= 1 || !W->cfg.shortio) return want;
	uint64_t h = k_rng(0x5107 + cls, ((uint64_t)W->step << 8) + W->proc[self_slot].key);
	if (h % 1000 >= W->cfg.shortio) return want;
	W->shortio_fired++;
	switch ((h >> 12) % 3) {
		case 0: return 1;
		case 1: return want - 1;
		default: return 1 + (long)((h >> 20) % (uint64_t)(want - 1));
	}
}

static void note_eof(Inode *nd, uint64_t at) {
	for (uint32_t i = 0; i < nd->neof; i++) if (nd->eofat[i] == at) return;
	if (nd->neof < 8) nd->eofat[nd->neof++] = at;
}

static long k_read(long fd, void *buf, long n, long pos /* -1: current */) {
	Ofd *o = getofd(fd);
	if (!o || (o->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
	if (n < 0) return -EINVAL;
	if (n && bad(buf)) return -EFAULT;
	if (o->hostfd >= 0)
		return pos >= 0 ? raw6(SYS_pread64, o->hostfd, (long)buf, n, pos, 0, 0) : raw6(SYS_read, o->hostfd, (long)buf, n, 0, 0, 0);
	Fault *f = k_fault(C_READ);
	Inode *nd = &W->ino[o->ino];
	if (f && f->kind == F_ERR) return f_errno(f);
	if (f && f->kind == F_EOF) { fired(f); if (nd->tracked) note_eof(nd, pos >= 0 ? (uint64_t)pos : o->pos); return 0; }
	if (nd->type == T_DIR) return -EISDIR;
	if (nd->type == T_NULL || nd->type == T_STREAM) return 0;
	if (nd->type == T_FULL) { memset(buf, 0, (size_t)n); return n; }
	if (nd->type == T_PIPE) {
		while (!nd->size) {
			if (!nd->pw) return 0;
			W->proc[self_slot].state = P_PIPE; schedule();
		}
		if ((uint64_t)n > nd->size) n = (long)nd->size;
		memcpy(buf, W->heap + nd->data, (size_t)n);
		memmove(W->heap + nd->data, W->heap + nd->data + n, nd->size - (uint64_t)n);
		nd->size -= (uint64_t)n;
		return n;
	}
	uint64_t p = pos >= 0 ? (uint64_t)pos : o->pos;
	long av = p < nd->size ? (long)(nd->size - p) : 0;
	if (n > 0 && !av && nd->tracked && !W->proc[self_slot].stub) note_eof(nd, p);
	if (n > av) n = av;
	if (f && f->kind == F_SHORT && n > 1) { fired(f); long k = f->a < 1 ? 1 : f->a; if (n > k) n = k; }
	else n = shorten(n, C_READ);
	if (n > 0) memcpy(buf, W->heap + nd->data + p, (size_t)n);
	if (nd->tracked && !W->proc[self_slot].stub) {
		nd->reads++;
		if (p + (uint64_t)n > nd->deliv_cap) {
			uint64_t c = (p + (uint64_t)n) * 2 + 4096, nb = w_alloc(c);
			if (nb) { if (nd->deliv_hi) memcpy(W->heap + nb, W->heap + nd->deliv, nd->deliv_hi); nd->deliv = nb; nd->deliv_cap = c; }
		}
		if (p + (uint64_t)n <= nd->deliv_cap && n > 0) {
			if (p > nd->deliv_hi) memset(W->heap + nd->deliv + nd->deliv_hi, 0, p - nd->deliv_hi);   // a hole
			if (p <= nd->deliv_run && p + (uint64_t)n > nd->deliv_run) nd->deliv_run = p + (uint64_t)n;
			memcpy(W->heap + nd->deliv + p, buf, (size_t)n);
			if (p + (uint64_t)n > nd->deliv_hi) nd->deliv_hi = p + (uint64_t)n;
		}
	}
	if (pos < 0) o->pos += (uint64_t)n;
	W->iobytes += (uint64_t)n;
	k_mix(fnv(buf, (size_t)n, FNV0));
	return n;
}

static long k_write(long fd, const void *buf, long n, long pos) {
	Ofd *o = getofd(fd);
	Proc *p = &W->proc[self_slot];
	if (!o || (o->flags & O_ACCMODE) == O_RDONLY || o->hostfd >= 0) return -EBADF;
	if (n < 0) return -EINVAL;
	if (n && bad(buf)) return -EFAULT;
	Inode *nd = &W->ino[o->ino];
	int cls = nd->type == T_STREAM ? (nd->stream_fd == 2 ? C_ERR : C_OUT) : C_WRITE;
	Fault *f = k_fault(cls);
	nd = &W->ino[o->ino];
	if (f && f->kind == F_ERR) {
		if (f->a == EPIPE && !(p->sigign & (1ULL << SIGPIPE))) { fired(f); proc_end(SIGPIPE); proc_gone(); }
		return f_errno(f);
	}
	if (f && f->kind == F_SHORT && n > 1) { fired(f); long k = f->a < 1 ? 1 : f->a; if (n > k) n = k; }
	else n = shorten(n, cls);
	k_mix(fnv(buf, (size_t)n, FNV0));
	p->wbytes += (uint32_t)n;
	W->iobytes += (uint64_t)n;
	switch (nd->type) {
		case T_DIR: return -EISDIR;
		case T_NULL: return n;
		case T_FULL: return n ? -ENOSPC : 0;
		case T_PIPE:
			if (!nd->pr) {
				if (!(p->sigign & (1ULL << SIGPIPE))) { proc_end(SIGPIPE); proc_gone(); }
				return -EPIPE;
			}
			if (ino_reserve(nd, nd->size + (uint64_t)n)) return -ENOSPC;
			memcpy(W->heap + nd->data + nd->size, buf, (size_t)n); nd->size += (uint64_t)n;
			wake_pipe();
			return n;
		default: break;
	}
	uint64_t at = pos >= 0 ? (uint64_t)pos : o->pos;
	if (o->flags & O_APPEND || nd->type == T_STREAM) at = nd->size;
	uint64_t end = at + (uint64_t)n;
	if (nd->type == T_FILE && W->disk >= 0 && end > nd->size) {
		uint64_t grow = end - (nd->size > at ? nd->size : at);
		if (nd->size < at) grow = end - nd->size;
		if ((int64_t)grow > W->disk) {
			uint64_t can = (uint64_t)W->disk;
			long n2 = n - (long)(grow - can);
			W->firedk[F_DISK][C_WRITE]++;
			if (n2 <= 0) return -ENOSPC;
			n = n2; end = at + (uint64_t)n; grow = can;
		}
		W->disk -= (int64_t)grow;
	}
	if (ino_reserve(nd, end)) return -ENOSPC;
	if (at > nd->size) memset(W->heap + nd->data + nd->size, 0, at - nd->size);
	memcpy(W->heap + nd->data + at, buf, (size_t)n);
	if (end > nd->size) nd->size = end;
	nd->dirty = 1; nd->mtime = W->cfg.clock0 + W->clock + 1;
	if (nd->type == T_FILE && !o->wrote) { o->wrote = 1; k_mut(M_WRITE, o->ino, o->path, NULL); }
	if (pos < 0) o->pos = end;
	return n;
}

static void fill_stat(struct stat *st, int ino) {
	memset(st, 0, sizeof *st);
	Inode *n = &W->ino[ino];
	st->st_dev = 77; st->st_ino = (ino_t)(1000 + ino); st->st_nlink = n->nlink > 0 ? (nlink_t)n->nlink : 1;
	st->st_uid = 1000; st->st_gid = 1000;
	st->st_blksize = W->cfg.blksize ? W->cfg.blksize : 4096;
	st->st_size = (off_t)n->size; st->st_blocks = (blkcnt_t)((n->size + 511) / 512);
	mode_t t = S_IFREG;
	switch (n->type) {
		case T_DIR: t = S_IFDIR; st->st_size = 4096; break;
		case T_NULL: case T_FULL: t = S_IFCHR; st->st_rdev = 0x103; st->st_size = 0; break;
		case T_PIPE: t = S_IFIFO; st->st_size = 0; break;
		case T_LINK: t = S_IFLNK; break;
		case T_STREAM:
			if (n->skind == SK_PIPE) { t = S_IFIFO; st->st_size = 0; }
			else if (n->skind == SK_TTY) { t = S_IFCHR; st->st_rdev = 0x8801; st->st_size = 0; st->st_blksize = 1024; }
			break;
		default: break;
	}
	st->st_mode = t | n->mode;
	// files that were there before have ages of all kinds, some lie in the future
	static const int64_t age[] = { 1000, 1, 86400 * 400LL, 0, -3600, 5 };
	uint64_t ns = n->mtime; int64_t sec = (int64_t)(ns / 1000000000ULL);
	if (!ns) { uint64_t h = (W->cfg.seed ^ (uint64_t)ino * 0x9e3779b97f4a7c15ULL) * 0xbf58476d1ce4e5b9ULL; sec = (int64_t)(W->cfg.clock0 / 1000000000ULL) - age[W->cfg.stackfill ? (h >> 40) % 6 : 0]; ns = 0; }
	st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = (time_t)sec;
	st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = (long)(ns % 1000000000ULL);
}
static void to_statx(struct statx *sx, const struct stat *st) {
	memset(sx, 0, sizeof *sx);
	sx->stx_mask = STATX_BASIC_STATS; sx->stx_blksize = (uint32_t)st->st_blksize; sx->stx_nlink = (uint32_t)st->st_nlink;
	sx->stx_uid = st->st_uid; sx->stx_gid = st->st_gid; sx->stx_mode = (uint16_t)st->st_mode; sx->stx_ino = st->st_ino;
	sx->stx_size = (uint64_t)st->st_size; sx->stx_blocks = (uint64_t)st->st_blocks;
	sx->stx_mtime.tv_sec = st->st_mtim.tv_sec; sx->stx_mtime.tv_nsec = (uint32_t)st->st_mtim.tv_nsec; sx->stx_ctime.tv_sec = st->st_ctim.tv_sec; sx->stx_atime.tv_sec = st->st_atim.tv_sec;
	sx->stx_dev_minor = 77;
}
static long k_stat(long dirfd, const char *path, int flags, struct stat *st) {
	if (bad(st)) return -EFAULT;
	bool byfd = bad(path) ? true : (!*path && (flags & AT_EMPTY_PATH));
	if (bad(path) && !(flags & AT_EMPTY_PATH)) return -EFAULT;
	if (byfd) {
		Ofd *o = getofd(dirfd);
		if (!o) { if ((int)dirfd == AT_FDCWD) { int i = w_lookup(W->proc[self_slot].cwd); if (i < 0) return -ENOENT; fill_stat(st, i); return 0; } return -EBADF; }
		if (o->hostfd >= 0) return raw6(SYS_fstat, o->hostfd, (long)st, 0, 0, 0, 0);
		Fault *f = k_fault(C_STAT);
		if (f && f->kind == F_ERR) return f_errno(f);
		fill_stat(st, o->ino);
		return 0;
	}
	if (*path == '/' && is_host_path(path)) {
		k_fault(C_SYS);
		return raw6(SYS_newfstatat, AT_FDCWD, (long)path, (long)st, flags, 0, 0);
	}
	Fault *f = k_fault(C_STAT);
	if (f && f->kind == F_ERR) return f_errno(f);
	Res r; int e = res_at(dirfd, path, &r, !(flags & AT_SYMLINK_NOFOLLOW));
	if (e < 0) return e;
	if (!r.ino) return -ENOENT;
	fill_stat(st, r.ino);
	return 0;
}
static long k_access(long dirfd, const char *path, int mode) {
	if (!bad(path) && *path == '/' && is_host_path(path)) return raw6(SYS_faccessat, AT_FDCWD, (long)path, mode, 0, 0, 0);
	Fault *f = k_fault(C_STAT);
	if (f && f->kind == F_ERR) return f_errno(f);
	Res r; int e = res_at(dirfd, path, &r);
	if (e < 0) return e;
	if (!r.ino) return -ENOENT;
	Inode *n = &W->ino[r.ino];
	if ((mode & R_OK) && !may(n, 4)) return -EACCES;
	if ((mode & W_OK) && !may(n, 2)) return -EACCES;
	if ((mode & X_OK) && !may(n, 1)) return -EACCES;
	return 0;
}
static long k_unlink(long dirfd, const char *path, int flags) {
	Fault *f = k_fault(C_UNLINK);
	if (f && f->kind == F_ERR) return f_errno(f);
	Res r; int e = res_at(dirfd, path, &r, 0);
	if (e < 0) return e;
	if (!r.ino) return -ENOENT;
	Inode *n = &W->ino[r.ino];
	if (!may(&W->ino[r.dir], 2)) return -EACCES;
	if (flags & AT_REMOVEDIR) {
		if (n->type != T_DIR) return -ENOTDIR;
		for (uint32_t i = 0; i < W->ndent; i++) if (W->dent[i].ino && W->dent[i].dir == r.ino) return -ENOTEMPTY;
		k_mut(M_RMDIR, r.ino, r.path, NULL);
	}
	else {
		if (n->type == T_DIR) return -EISDIR;
		k_mut(M_UNLINK, r.ino, r.path, NULL);
		if (W->disk >= 0 && n->nlink == 1) W->disk += (int64_t)n->size;
	}
	int d = dent_find(r.dir, r.name);
	if (d >= 0) dent_del(d);
	return 0;
}
static long k_rename(long fd1, const char *a, long fd2, const char *b, int flags) {
	Fault *f = k_fault(C_MISC);
	if (f && f->kind == F_ERR) return f_errno(f);
	Res ra, rb; int e;
	if ((e = res_at(fd1, a, &ra, 0)) < 0) return e;
	if (!ra.ino) return -ENOENT;
	if ((e = res_at(fd2, b, &rb, 0)) < 0) return e;
	if (flags & 1 && rb.ino) return -EEXIST;
	if (!may(&W->ino[ra.dir], 2) || !may(&W->ino[rb.dir], 2)) return -EACCES;
	if (rb.ino == ra.ino) return 0;
	if (rb.ino && W->ino[rb.ino].type == T_DIR && W->ino[ra.ino].type != T_DIR) return -EISDIR;
	k_mut(M_RENAME, ra.ino, ra.path, rb.path);
	int d;
	if (rb.ino && (d = dent_find(rb.dir, rb.name)) >= 0) dent_del(d);
	W->ino[ra.ino].nlink++;
	if ((d = dent_find(ra.dir, ra.name)) >= 0) dent_del(d);
	dent_add(rb.dir, rb.name, ra.ino);
	W->ino[ra.ino].nlink--;
	W->ino[ra.ino].fresh = 1;
	return 0;
}
static long k_mkdir(long dirfd, const char *p, int mode) {
	Fault *f = k_fault(C_MISC);
	if (f && f->kind == F_ERR) return f_errno(f);
	Res r; int e = res_at(dirfd, p, &r);
	if (e < 0) return e;
	if (r.ino) return -EEXIST;
	if (!may(&W->ino[r.dir], 2)) return -EACCES;
	int i = ino_new(T_DIR, mode & 0777 & ~W->proc[self_slot].umask_);
	if (i < 0) return i;
	dent_add(r.dir, r.name, i);
	k_mut(M_MKDIR, i, r.path, NULL);
	return 0;
}
static long k_link(long fd1, const char *a, long fd2, const char *b) {
	Res ra, rb; int e;
	if ((e = res_at(fd1, a, &ra)) < 0) return e;
	if (!ra.ino) return -ENOENT;
	if ((e = res_at(fd2, b, &rb)) < 0) return e;
	if (rb.ino) return -EEXIST;
	k_mut(M_LINK, ra.ino, ra.path, rb.path);
	return dent_add(rb.dir, rb.name, ra.ino);
}
static long k_seek(long fd, long off, int wh) {
	Ofd *o = getofd(fd);
	if (!o) return -EBADF;
	if (o->hostfd >= 0) return raw6(SYS_lseek, o->hostfd, off, wh, 0, 0, 0);
	Fault *f = k_fault(C_SEEK);
	if (f && f->kind == F_ERR) return f_errno(f);
	Inode *n = &W->ino[o->ino];
	if (n->type == T_PIPE || (n->type == T_STREAM && n->skind != SK_FILE)) return -ESPIPE;
	int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->pos : wh == SEEK_END ? (int64_t)n->size : -1;
	if (wh > SEEK_END) return -EINVAL;
	if (n->type == T_NULL || n->type == T_FULL) return 0;
	if (n->type == T_DIR && wh == SEEK_END) base = 0x7fffffff;
	if (base + off < 0) return -EINVAL;
	o->pos = (uint64_t)(base + off);
	return (long)o->pos;
}
static long k_ftruncate(long fd, long len) {
	Ofd *o = getofd(fd);
	if (!o || (o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
	Fault *f = k_fault(C_MISC);
	if (f && f->kind == F_ERR) return f_errno(f);
	Inode *n = &W->ino[o->ino];
	if (n->type != T_FILE || len < 0) return -EINVAL;
	if (ino_reserve(n, (uint64_t)len)) return -ENOSPC;
	if ((uint64_t)len > n->size) memset(W->heap + n->data + n->size, 0, (uint64_t)len - n->size);
	n->size = (uint64_t)len; n->dirty = 1; n->mtime = W->cfg.clock0 + W->clock + 1;
	k_mut(M_TRUNC, o->ino, o->path, NULL);
	return 0;
}

// ----------------------------------------------------------------- processes
static long k_wait(int pid, int *st, int opt, siginfo_t *info) {
	Proc *p = &W->proc[self_slot];
	Fault *f = k_fault(C_WAIT);
	bool stolen = f && f->kind == F_ERR && f->a == ECHILD;   // somebody else in this process reaps the child first
	if (f && f->kind == F_ERR && f->b == 0 && !stolen) return f_errno(f);
	bool blocked = false;
	for (;;) {
		int z = -1; bool any = false;
		for (int i = 0; i < MAXPROC; i++) {
			Proc *c = &W->proc[i];
			if (c->parent != self_slot || c->state == P_FREE || c->state == P_DEAD) continue;
			if (pid > 0 && c->pid != pid) continue;
			any = true;
			if ((opt & WUNTRACED) && c->stopped == 1 && c->state != P_ZOMBIE) {
				c->stopped = 2;
				if (!bad(st)) *st = 0x7f | SIGSTOP << 8;
				if (info) { memset(info, 0, sizeof *info); info->si_signo = SIGCHLD; info->si_pid = c->pid; info->si_code = CLD_STOPPED; info->si_status = SIGSTOP; }
				return info ? 0 : c->pid;
			}
			// the earliest to end is reaped first
			if (c->state == P_ZOMBIE && (z < 0 || c->end_step < W->proc[z].end_step)) z = i;
		}
		if (blocked && f && f->kind == F_ERR && !stolen) return f_errno(f); // interrupted while waiting
		if (z >= 0) {
			Proc *c = &W->proc[z];
			if (stolen) { c->state = P_DEAD; return f_errno(f); }
			if (!bad(st)) *st = (c->status & 0x10000) ? ((c->status & 0xff) << 8) : c->status;
			if (info) {
				memset(info, 0, sizeof *info);
				info->si_signo = SIGCHLD; info->si_pid = c->pid;
				if (c->status & 0x10000) { info->si_code = CLD_EXITED; info->si_status = c->status & 0xff; }
				else { info->si_code = CLD_KILLED; info->si_status = c->status; }
			}
			if (!(opt & WNOWAIT)) { c->state = P_DEAD; c->reaped = 1; }
			k_mix(0x3a17 + c->key);
			return info ? 0 : c->pid;
		}
		if (!any) return -ECHILD;
		if (opt & WNOHANG) { p->delay_until = W->step + 2; return 0; }   // polling must not keep the others from running
		p->state = P_WAIT;
		blocked = true;
		schedule();
	}
}

static long k_clone(unsigned long flags, unsigned long stack, long ptid, long ctid, long tls, ucontext_t *uc) {
	if (flags & CLONE_THREAD) { W->unsupported++; return -EAGAIN; }
	Proc *p = &W->proc[self_slot];
	Fault *f = k_fault(C_FORK);
	if (f && f->kind == F_ERR) return f_errno(f);
	int slot = -1;
	for (int i = 0; i < MAXPROC; i++) if (W->proc[i].state == P_FREE) { slot = i; break; }
	if (slot < 0) return -EAGAIN;
	Proc *c = &W->proc[slot];
	*c = *p;
	c->key = p->key * KEYMUL + ++p->nchild;
	if (p->nchild >= KEYMUL || c->key > 30000) { herr("process keys exhausted"); c->state = P_FREE; return -EAGAIN; }
	c->pid = W->cfg.pidbase + (int)W->nprocs++;
	c->parent = self_slot; c->nchild = 0; c->state = P_RUN; c->go = 0; c->crashed = 0; c->exited = 0; c->pendkill = 0; c->nsys = 0; c->wbytes = 0; c->reaped = 0; c->stopped = 0;
	c->stub = 0; c->delay_until = 0; c->heap_err = 0;
	memset(c->cnt, 0, sizeof c->cnt);
	for (int i = 0; i < MAXFD; i++) if (c->fds[i]) W->ofd[c->fds[i] - 1].refs++;
	unsigned long rf = (flags & (CLONE_CHILD_SETTID | CLONE_CHILD_CLEARTID | CLONE_PARENT_SETTID)) | SIGCHLD;
	bool vf = flags & CLONE_VFORK;
	int parent_slot = self_slot;
	long r = raw6(SYS_clone, (long)rf, 0, ptid, ctid, tls, 0);
	if (r < 0) { herr("real fork failed"); c->state = P_FREE; return -EAGAIN; }
	if (r == 0) {
		self_slot = slot;
		wait_token();
		if (uc && stack) uc->uc_mcontext.gregs[REG_RSP] = (long long)stack;
		return 0;
	}
	c->realpid = (int)r;
	k_mix(0xf02c);
	if (vf) {
		p->state = P_VFORK; p->vfork_child = slot;
		schedule();
	}
	(void)parent_slot;
	return c->pid;
}

static long k_execve(const char *path, char *const *argv, char *const *envp) {
	Proc *p = &W->proc[self_slot];
	if (bad(path)) return -EFAULT;
	Fault *f = k_fault(C_EXEC);
	if (f && f->kind == F_ERR) return f_errno(f);
	Res r; int e = res_at(AT_FDCWD, path, &r);
	if (e < 0) return e;
	if (!r.ino) return -ENOENT;
	Inode *n = &W->ino[r.ino];
	if (n->type != T_FILE) return -EACCES;
	if (!may(n, 1)) return -EACCES;
	for (int i = 0; i < MAXFD; i++) if (p->fds[i] && p->cloexec[i]) { ofd_unref(p->fds[i] - 1); p->fds[i] = 0; }
	p->stub = 1;
	if (p->parent >= 0) {
		Proc *pp = &W->proc[p->parent];
		if (pp->state == P_VFORK && pp->vfork_child == self_slot) pp->state = P_RUN;
	}
	k_mix(0xe3ec);
	// past this point the program image is the stub's
	char pathb[PATHMAX]; snprintf(pathb, sizeof pathb, "%s", r.path);
	stub_exec(pathb, argv, envp);
}

static void __attribute__((noreturn)) k_exit(int code) {
	if (!W->proc[self_slot].stub) arena_check();
	proc_end(0x10000 | (code & 0xff));
	proc_gone();
}

static long k_kill(long pid, int sig) {
	if (sig == 0) return 0;
	Proc *me = &W->proc[self_slot];
	if (pid == me->pid || pid == 0) {
		if (me->sigign & (1ULL << sig)) return 0;
		if (sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH) return 0;
		k_die(sig, 0, 0);
	}
	for (int i = 0; i < MAXPROC; i++) if (W->proc[i].pid == pid && W->proc[i].state != P_FREE && W->proc[i].state != P_DEAD) {
		W->proc[i].pendkill = sig;
		if (W->proc[i].state == P_WAIT || W->proc[i].state == P_PIPE) W->proc[i].state = P_RUN;
		return 0;
	}
	return -ESRCH;
}

// -------------------------------------------------------------- system calls
static long iov(long fd, const struct iovec *v, int cnt, long pos, bool wr) {
	long tot = 0;
	if (bad(v)) return -EFAULT;
	for (int i = 0; i < cnt; i++) {
		if (!v[i].iov_len) continue;
		long n = wr ? k_write(fd, v[i].iov_base, (long)v[i].iov_len, pos >= 0 ? pos + tot : -1)
		            : k_read(fd, v[i].iov_base, (long)v[i].iov_len, pos >= 0 ? pos + tot : -1);
		if (n < 0) return tot ? tot : n;
		tot += n;
		if ((size_t)n < v[i].iov_len) break;
	}
	return tot;
}

static long dispatch(long nr, long a, long b, long c, long d, long e, long f, ucontext_t *uc) {
	if ((uint64_t)a >> 31 == 1) a = (int)a;    // int arguments arrive zero-extended
	if ((nr == SYS_renameat || nr == SYS_renameat2 || nr == SYS_linkat) && (uint64_t)c >> 31 == 1) c = (int)c;
	Proc *p = &W->proc[self_slot];
	Fault *ft;
	switch (nr) {
		case SYS_open: return k_open(AT_FDCWD, (const char *)a, (int)b, (int)c);
		case SYS_creat: return k_open(AT_FDCWD, (const char *)a, O_CREAT | O_TRUNC | O_WRONLY, (int)b);
		case SYS_openat: return k_open(a, (const char *)b, (int)c, (int)d);
		case SYS_close: return k_close(a);
		case SYS_close_range: for (long i = a; i <= b && i < MAXFD; i++) if (p->fds[i]) { if (c & 4) p->cloexec[i] = 1; else k_close(i); } return 0;
		case SYS_read: return k_read(a, (void *)b, c, -1);
		case SYS_pread64: return k_read(a, (void *)b, c, d);
		case SYS_write: return k_write(a, (const void *)b, c, -1);
		case SYS_pwrite64: return k_write(a, (const void *)b, c, d);
		case SYS_readv: return iov(a, (const struct iovec *)b, (int)c, -1, false);
		case SYS_writev: return iov(a, (const struct iovec *)b, (int)c, -1, true);
		case SYS_preadv: case SYS_preadv2: return iov(a, (const struct iovec *)b, (int)c, d, false);
		case SYS_pwritev: case SYS_pwritev2: return iov(a, (const struct iovec *)b, (int)c, d, true);
		case SYS_lseek: return k_seek(a, b, (int)c);
		case SYS_stat: return k_stat(AT_FDCWD, (const char *)a, 0, (struct stat *)b);
		case SYS_lstat: return k_stat(AT_FDCWD, (const char *)a, AT_SYMLINK_NOFOLLOW, (struct stat *)b);
		case SYS_fstat: return k_stat(a, "", AT_EMPTY_PATH, (struct stat *)b);
		case SYS_newfstatat: return k_stat(a, (const char *)b, (int)d, (struct stat *)c);
		case SYS_statx: {
			struct stat st; long r = k_stat(a, (const char *)b, (int)c, &st);
			if (!r) { if (bad((void *)e)) return -EFAULT; to_statx((struct statx *)e, &st); }
			return r;
		}
		case SYS_statfs: case SYS_fstatfs: {
			struct statfs *s = (struct statfs *)b; if (bad(s)) return -EFAULT;
			memset(s, 0, sizeof *s); s->f_type = 0xEF53; s->f_bsize = 4096; s->f_bfree = s->f_bavail = 1 << 20; s->f_namelen = 255;
			return 0;
		}
		case SYS_access: return k_access(AT_FDCWD, (const char *)a, (int)b);
		case SYS_faccessat: case SYS_faccessat2: return k_access(a, (const char *)b, (int)c);
		case SYS_unlink: return k_unlink(AT_FDCWD, (const char *)a, 0);
		case SYS_rmdir: return k_unlink(AT_FDCWD, (const char *)a, AT_REMOVEDIR);
		case SYS_unlinkat: return k_unlink(a, (const char *)b, (int)c);
		case SYS_rename: return k_rename(AT_FDCWD, (const char *)a, AT_FDCWD, (const char *)b, 0);
		case SYS_renameat: return k_rename(a, (const char *)b, c, (const char *)d, 0);
		case SYS_renameat2: return k_rename(a, (const char *)b, c, (const char *)d, (int)e);
		case SYS_mkdir: return k_mkdir(AT_FDCWD, (const char *)a, (int)b);
		case SYS_mkdirat: return k_mkdir(a, (const char *)b, (int)c);
		case SYS_link: return k_link(AT_FDCWD, (const char *)a, AT_FDCWD, (const char *)b);
		case SYS_linkat: return k_link(a, (const char *)b, c, (const char *)d);
		case SYS_symlink: case SYS_symlinkat: k_mut(M_LINK, 0, "(symlink)", NULL); return -EPERM;
		case SYS_chmod: case SYS_fchmodat: case SYS_fchmod: {
			ft = k_fault(C_MISC);
			if (ft && ft->kind == F_ERR) return f_errno(ft);
			int ino = 0; char pb[PATHMAX]; int mode;
			if (nr == SYS_fchmod) { Ofd *o = getofd(a); if (!o || !o->ino) return -EBADF; ino = o->ino; snprintf(pb, sizeof pb, "%s", o->path); mode = (int)b; }
			else {
				Res r; int er = nr == SYS_chmod ? res_at(AT_FDCWD, (const char *)a, &r) : res_at(a, (const char *)b, &r);
				if (er < 0) return er;
				if (!r.ino) return -ENOENT;
				ino = r.ino; snprintf(pb, sizeof pb, "%s", r.path); mode = nr == SYS_chmod ? (int)b : (int)c;
			}
			W->ino[ino].mode = mode & 07777;
			k_mut(M_CHMOD, ino, pb, NULL);
			return 0;
		}
		case SYS_chown: case SYS_fchown: case SYS_lchown: case SYS_fchownat: return 0;
		case SYS_utimensat: case SYS_utime: case SYS_utimes: case SYS_futimesat: return 0;
		case SYS_ftruncate: return k_ftruncate(a, b);
		case SYS_truncate: {
			long fd = k_open(AT_FDCWD, (const char *)a, O_WRONLY, 0);
			if (fd < 0) return fd;
			long r = k_ftruncate(fd, b); k_close(fd); return r;
		}
		case SYS_fallocate: return 0;
		case SYS_fsync: case SYS_fdatasync: case SYS_syncfs: {
			Ofd *o = getofd(a); if (!o) return -EBADF;
			ft = k_fault(C_MISC); if (ft && ft->kind == F_ERR) return f_errno(ft);
			if (o->ino) { W->ino[o->ino].dirty = 0; W->ino[o->ino].fresh = 0; }
			return 0;
		}
		case SYS_sync: return 0;
		case SYS_flock: return 0;
		case SYS_dup: { Ofd *o = getofd(a); if (!o) return -EBADF; int r = fd_new(p->fds[a] - 1, 0, 0); if (r >= 0) o->refs++; return r; }
		case SYS_dup2: case SYS_dup3: {
			Ofd *o = getofd(a); if (!o || b < 0 || b >= MAXFD) return -EBADF;
			if (a == b) return nr == SYS_dup3 ? -EINVAL : b;
			o->refs++;
			if (p->fds[b]) ofd_unref(p->fds[b] - 1);
			p->fds[b] = p->fds[a]; p->cloexec[b] = nr == SYS_dup3 && (c & O_CLOEXEC);
			return b;
		}
		case SYS_fcntl: {
			Ofd *o = getofd(a); if (!o) return -EBADF;
			switch (b) {
				case F_GETFD: return p->cloexec[a] ? FD_CLOEXEC : 0;
				case F_SETFD: p->cloexec[a] = c & FD_CLOEXEC; return 0;
				case F_GETFL: return o->flags;
				case F_SETFL: o->flags = (o->flags & O_ACCMODE) | ((int)c & ~O_ACCMODE); return 0;
				case F_DUPFD: case F_DUPFD_CLOEXEC: { int r = fd_new(p->fds[a] - 1, b == F_DUPFD_CLOEXEC, (int)c); if (r >= 0) o->refs++; return r; }
				default: return 0;
			}
		}
		case SYS_ioctl: {
			Ofd *o = getofd(a); if (!o) return -EBADF;
			if (o->ino && W->ino[o->ino].type == T_STREAM && W->ino[o->ino].skind == SK_TTY) {
				if (b == 0x5401 && !bad((void *)c)) memset((void *)c, 0, 36);
				return 0;
			}
			return -ENOTTY;
		}
		case SYS_pipe: case SYS_pipe2: {
			int *fds = (int *)a; if (bad(fds)) return -EFAULT;
			ft = k_fault(C_MISC); if (ft && ft->kind == F_ERR) return f_errno(ft);
			int i = ino_new(T_PIPE, 0600); if (i < 0) return i;
			int o1 = ofd_new(i, O_RDONLY, "pipe:"), o2 = ofd_new(i, O_WRONLY, "pipe:");
			if (o1 < 0 || o2 < 0) return -ENFILE;
			int cx = nr == SYS_pipe2 && (b & O_CLOEXEC);
			int f1 = fd_new(o1, cx, 0), f2 = fd_new(o2, cx, 0);
			if (f1 < 0 || f2 < 0) return -EMFILE;
			fds[0] = f1; fds[1] = f2; return 0;
		}
		case SYS_getdents64: {
			Ofd *o = getofd(a); if (!o || !o->ino) return -EBADF;
			if (W->ino[o->ino].type != T_DIR) return -ENOTDIR;
			char *out = (char *)b; long used = 0; uint64_t idx = 0;
			for (uint32_t i = 0; i < W->ndent; i++) {
				if (!W->dent[i].ino || W->dent[i].dir != o->ino) continue;
				if (idx++ < o->pos) continue;
				size_t nl = strlen(W->dent[i].name) + 1, rl = (19 + nl + 7) & ~7UL;
				if (used + (long)rl > c) break;
				char *q = out + used;
				*(uint64_t *)q = (uint64_t)(1000 + W->dent[i].ino); *(uint64_t *)(q + 8) = idx; *(uint16_t *)(q + 16) = (uint16_t)rl;
				q[18] = W->ino[W->dent[i].ino].type == T_DIR ? DT_DIR : DT_REG; memcpy(q + 19, W->dent[i].name, nl);
				used += (long)rl; o->pos = idx;
			}
			return used;
		}
		case SYS_getcwd: {
			ft = k_fault(C_CWD); if (ft && ft->kind == F_ERR) return f_errno(ft);
			if (!cwd_ok()) return -ENOENT;
			long n = (long)strlen(p->cwd) + 1; if (n > b) return -ERANGE;
			if (bad((void *)a)) return -EFAULT;
			memcpy((void *)a, p->cwd, (size_t)n); return n;
		}
		case SYS_chdir: case SYS_fchdir: {
			char pb[PATHMAX];
			if (nr == SYS_chdir) { Res r; int er = res_at(AT_FDCWD, (const char *)a, &r); if (er < 0) return er; if (!r.ino) return -ENOENT; if (W->ino[r.ino].type != T_DIR) return -ENOTDIR; snprintf(pb, sizeof pb, "%s", r.path); }
			else { Ofd *o = getofd(a); if (!o) return -EBADF; snprintf(pb, sizeof pb, "%s", o->path); }
			snprintf(p->cwd, sizeof p->cwd, "%s", pb); return 0;
		}
		case SYS_readlink: case SYS_readlinkat: {
			ft = k_fault(C_STAT); if (ft && ft->kind == F_ERR) return f_errno(ft);
			Res r; int er = nr == SYS_readlink ? res_at(AT_FDCWD, (const char *)a, &r, 0) : res_at(a, (const char *)b, &r, 0);
			if (er < 0) return er;
			if (r.ino && W->ino[r.ino].type == T_LINK) {
				char *out = (char *)(nr == SYS_readlink ? b : c); size_t cap = (size_t)(nr == SYS_readlink ? c : d), k = W->ino[r.ino].size < cap ? W->ino[r.ino].size : cap;
				if (bad(out)) return -EFAULT;
				memcpy(out, W->heap + W->ino[r.ino].data, k); return (long)k;
			}
			return r.ino ? -EINVAL : -ENOENT;
		}
		case SYS_mmap: { // of a file
			int fd = (int)e;
			if (fd == -1 || (d & MAP_ANONYMOUS)) return raw6(SYS_mmap, a, b, c, d, e, f);
			Ofd *o = getofd(fd); if (!o) return -EBADF;
			if (o->hostfd >= 0) return raw6(SYS_mmap, a, b, c, d, o->hostfd, f);
			ft = k_fault(C_MMAP); if (ft && ft->kind == F_ERR) return f_errno(ft);
			Inode *n = &W->ino[o->ino];
			if (n->type != T_FILE) return -ENODEV;
			if (d & MAP_SHARED && c & PROT_WRITE) { W->unsupported++; return -ENODEV; }
			long m = raw6(SYS_mmap, a, b, PROT_READ | PROT_WRITE, (d & MAP_FIXED) | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if (m < 0) return m;
			uint64_t av = (uint64_t)f < n->size ? n->size - (uint64_t)f : 0;
			if (av > (uint64_t)b) av = (uint64_t)b;
			memcpy((void *)m, W->heap + n->data + f, av);
			if (n->tracked && !p->stub) {
				uint64_t hi = (uint64_t)f + av;
				if (hi > n->deliv_cap) { uint64_t nb = w_alloc(hi * 2); if (nb) { if (n->deliv_hi) memcpy(W->heap + nb, W->heap + n->deliv, n->deliv_hi); n->deliv = nb; n->deliv_cap = hi * 2; } }
				if ((uint64_t)f > n->deliv_hi) memset(W->heap + n->deliv + n->deliv_hi, 0, (uint64_t)f - n->deliv_hi);
				if ((uint64_t)f <= n->deliv_run && hi > n->deliv_run) n->deliv_run = hi;
				memcpy(W->heap + n->deliv + f, W->heap + n->data + f, av);
				if (hi > n->deliv_hi) n->deliv_hi = hi;
				n->reads++;
			}
			raw6(SYS_mprotect, m, b, c, 0, 0, 0);
			return m;
		}
		case SYS_msync: return 0;
		case SYS_fork: return k_clone(SIGCHLD, 0, 0, 0, 0, uc);
		case SYS_vfork: return k_clone(SIGCHLD | CLONE_VFORK, 0, 0, 0, 0, uc);
		case SYS_clone: return k_clone((unsigned long)a, (unsigned long)b, c, d, e, uc);
		case SYS_clone3: return -ENOSYS;
		case SYS_execve: return k_execve((const char *)a, (char *const *)b, (char *const *)c);
		case SYS_execveat: return (b && *(const char *)b == '/') ? k_execve((const char *)b, (char *const *)c, (char *const *)d) : -ENOSYS;
		case SYS_wait4: return k_wait(a, (int *)b, (int)c, NULL);
		case SYS_waitid: {
			siginfo_t tmp; siginfo_t *si = bad((void *)c) ? &tmp : (siginfo_t *)c;
			return k_wait((int)a == P_PID ? (int)b : -1, NULL, (int)d, si);
		}
		case SYS_exit: case SYS_exit_group: k_exit((int)a);
		case SYS_kill: return k_kill(a, (int)b);
		case SYS_tkill: return k_kill(p->pid, (int)b);
		case SYS_tgkill: return k_kill(p->pid, (int)c);
		case SYS_getpid: case SYS_gettid: return p->pid;
		case SYS_getppid: return p->parent >= 0 ? W->proc[p->parent].pid : 1;
		case SYS_getpgrp: case SYS_getpgid: case SYS_getsid: return p->pid;
		case SYS_setpgid: case SYS_setsid: if (nr == SYS_setsid || !a || a == p->pid) p->sid++; return 0;
		case SYS_setpriority: p->nice_ = (int)c; return 0;
		case SYS_getpriority: return 20 - p->nice_;
		case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: return 1000;
		case SYS_getgroups: return 0;
		case SYS_umask: { int o = p->umask_; p->umask_ = (int)a & 0777; return o; }
		case SYS_rt_sigprocmask: {
			if (!uc) return 0;
			uint64_t *cur = (uint64_t *)&uc->uc_sigmask;
			uint64_t old = *cur;
			if (!bad((void *)b)) {
				uint64_t s = *(uint64_t *)b;
				if (a == SIG_BLOCK) *cur |= s; else if (a == SIG_UNBLOCK) *cur &= ~s; else if (a == SIG_SETMASK) *cur = s; else return -EINVAL;
				*cur &= ~((1ULL << (SIGSYS - 1)) | (1ULL << (SIGSEGV - 1)) | (1ULL << (SIGBUS - 1)));
			}
			if (!bad((void *)c)) *(uint64_t *)c = old;
			return 0;
		}
		case SYS_rt_sigaction: {
			int s = (int)a; if (s < 1 || s > 64) return -EINVAL;
			struct ks { void (*h)(int); unsigned long fl; void *rest; uint64_t mask; };
			ks *nw = (ks *)b, *ol = (ks *)c;
			ks was = { (p->sigign & (1ULL << (s & 63))) ? SIG_IGN : (void (*)(int))p->sah[s], p->saf[s], NULL, 0 };
			if (!bad(nw)) { p->sah[s] = nw->h == SIG_IGN ? 0 : (uint64_t)nw->h; p->saf[s] = nw->fl; if (nw->h == SIG_IGN) p->sigign |= 1ULL << (s & 63); else p->sigign &= ~(1ULL << (s & 63)); }
			if (!bad(ol)) *ol = was;
			return 0;
		}
		case SYS_sigaltstack: return 0;
		case SYS_clock_gettime: case SYS_clock_gettime + 1000: {
			struct timespec *t = (struct timespec *)b; if (bad(t)) return -EFAULT;
			uint64_t n = W->cfg.clock0 + W->clock; t->tv_sec = (time_t)(n / 1000000000); t->tv_nsec = (long)(n % 1000000000); return 0;
		}
		case SYS_clock_getres: { struct timespec *t = (struct timespec *)b; if (!bad(t)) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
		case SYS_gettimeofday: { struct timeval *t = (struct timeval *)a; uint64_t n = W->cfg.clock0 + W->clock; if (!bad(t)) { t->tv_sec = (time_t)(n / 1000000000); t->tv_usec = (long)(n % 1000000000 / 1000); } return 0; }
		case SYS_time: { time_t n = (time_t)((W->cfg.clock0 + W->clock) / 1000000000); if (!bad((void *)a)) *(time_t *)a = n; return n; }
		case SYS_nanosleep: case SYS_clock_nanosleep: {
			struct timespec *t = (struct timespec *)(nr == SYS_nanosleep ? a : c);
			if (bad(t)) return -EFAULT;
			W->clock += (uint64_t)t->tv_sec * 1000000000ULL + (uint64_t)t->tv_nsec;
			p->delay_until = W->step + 5;
			return 0;
		}
		case SYS_times: return (long)(W->clock / 10000000);
		case SYS_getrusage: if (!bad((void *)b)) memset((void *)b, 0, sizeof(struct rusage)); return 0;
		case SYS_uname: { struct utsname *u = (struct utsname *)a; if (bad(u)) return -EFAULT; memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, "sim"); strcpy(u->release, "6.1.0"); strcpy(u->version, "#1"); strcpy(u->machine, "x86_64"); return 0; }
		case SYS_sysinfo: { struct sysinfo *s = (struct sysinfo *)a; if (bad(s)) return -EFAULT; memset(s, 0, sizeof *s); s->totalram = 4UL << 30; s->freeram = 2UL << 30; s->mem_unit = 1; return 0; }
		case SYS_prlimit64: case SYS_getrlimit: {
			struct rlimit *l = (struct rlimit *)(nr == SYS_getrlimit ? b : d);
			long res = nr == SYS_getrlimit ? a : b;
			if (!bad(l) && res >= 0 && res < 16 && p->rlset[res]) { l->rlim_cur = p->rl[res][0]; l->rlim_max = p->rl[res][1]; }
			else if (!bad(l)) { l->rlim_cur = res == RLIMIT_NOFILE ? MAXFD : res == RLIMIT_STACK ? 8UL << 20 : RLIM_INFINITY; l->rlim_max = RLIM_INFINITY; if (res == RLIMIT_NOFILE) l->rlim_max = MAXFD; }
			return 0;
		}
		case SYS_setrlimit: { struct rlimit *l = (struct rlimit *)b; if (!bad(l) && a >= 0 && a < 16) { p->rl[a][0] = l->rlim_cur; p->rl[a][1] = l->rlim_max; p->rlset[a] = 1; } return 0; }
		case SYS_getrandom: {
			uint8_t *q = (uint8_t *)a; if (bad(q)) return -EFAULT;
			for (long i = 0; i < b; i++) q[i] = (uint8_t)k_rng(0x9a4d, ((uint64_t)p->nsys << 20) + (uint64_t)i);
			return b;
		}
		case SYS_poll: case SYS_ppoll: {
			struct pollfd *q = (struct pollfd *)a; int k = 0;
			for (long i = 0; i < b; i++) { q[i].revents = q[i].events; k += !!q[i].revents; }
			return k;
		}
		case SYS_prctl: return a == PR_GET_NAME ? -EINVAL : 0;
		case SYS_set_tid_address: return p->pid;
		case SYS_pause: case SYS_rt_sigsuspend:
			p->state = P_WAIT; p->vfork_child = -1;
			schedule();
			return -EINTR;
		case SYS_alarm: { int was = p->alarm_; p->alarm_ = (int)a; return was; }
		case SYS_setitimer: { struct itimerval *t = (struct itimerval *)b; if (!bad(t)) p->timers = (t->it_value.tv_sec || t->it_value.tv_usec) ? p->timers | 1 << (a & 3) : p->timers & ~(1 << (a & 3)); return 0; }
		case SYS_getitimer: return 0;
		case SYS_sched_getaffinity: { if (bad((void *)c) || b < 8) return -EINVAL; memset((void *)c, 0, (size_t)b); *(uint64_t *)c = 0xf; return 8; }
		case SYS_sched_setaffinity: case SYS_personality: return 0;
		case SYS_memfd_create: case SYS_copy_file_range: case SYS_sendfile: case SYS_splice: case SYS_io_uring_setup: return -ENOSYS;
		case SYS_socket: case SYS_socketpair: return -EAFNOSUPPORT;
		default:
			W->unsupported++;
			return -ENOSYS;
	}
}

static uint32_t ev_arg(long nr, long a, long b) {
	const char *p = NULL;
	switch (nr) {
		case SYS_open: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_unlink: case SYS_execve: case SYS_rename: case SYS_mkdir: case SYS_chmod: case SYS_readlink: case SYS_rmdir: p = (const char *)a; break;
		case SYS_openat: case SYS_newfstatat: case SYS_unlinkat: case SYS_faccessat: case SYS_faccessat2: case SYS_statx: p = (const char *)b; break;
		default: return (uint32_t)a;
	}
	if (bad(p)) return 0;
	return w_str(p) | 0x80000000u;
}

extern "C" long k_syscall_uc(long nr, long a, long b, long c, long d, long e, long f, ucontext_t *uc) {
	Proc *p = &W->proc[self_slot];
	if (p->pendkill) { int s = p->pendkill; p->pendkill = 0; k_die(s, 0, 0); }
	p->nsys++;
	W->nsys_total++;
	// transfers of one byte at a time are slow, not stuck: bytes moved extend the budget
	if (W->nsys_total > W->cfg.budget + (W->iobytes < 3000000 ? W->iobytes : 3000000)) { W->livelock = 1; halt_all(); }
	pending_after = 0;
	uint32_t step0 = W->step;
	uint32_t arg = W->nev < MAXEV ? ev_arg(nr, a, b) : 0;
	uint32_t nf0 = 0;
	for (uint32_t i = 0; i < W->nfault; i++) nf0 += W->fault[i].fired;
	int key = p->key;
	bool quiet = nr == SYS_rt_sigprocmask || nr == SYS_rt_sigaction || nr == SYS_gettid || nr == SYS_getpid || nr == SYS_sigaltstack || nr == SYS_prlimit64;
	uint32_t evi = MAXEV;
	if (!quiet && W->nev < MAXEV) { evi = W->nev++; Ev *v = &W->ev[evi]; v->step = step0; v->key = (int16_t)key; v->nr = (int16_t)nr; v->arg = arg; v->ret = -99999; v->fault = 0; }
	long ret;
	Fault *fa = quiet ? NULL : k_fault(C_ANY);
	if (fa && fa->kind == F_ERR && nr != SYS_exit_group && nr != SYS_exit && nr != SYS_mmap && nr != SYS_close) { fired(fa); ret = -fa->a; }
	else ret = dispatch(nr, a, b, c, d, e, f, uc);
	// (in a freshly forked child self_slot differs from here on)
	p = &W->proc[self_slot];
	if (evi < MAXEV && p->key == key) {
		Ev *v = &W->ev[evi]; v->ret = ret;
		uint32_t nf1 = 0;
		for (uint32_t i = 0; i < W->nfault; i++) nf1 += W->fault[i].fired;
		v->fault = nf1 != nf0;
	}
	if (nr != SYS_mmap) k_mix(((uint64_t)p->key << 48) ^ ((uint64_t)nr << 32) ^ (uint64_t)ret);
	if (pending_after) { int s = pending_after; pending_after = 0; k_die(s, 0, 0); }
	if (!quiet) schedule();
	p = &W->proc[self_slot];
	if (p->pendkill) { int s = p->pendkill; p->pendkill = 0; k_die(s, 0, 0); }
	return ret;
}
extern "C" long k_syscall(long nr, long a, long b, long c, long d, long e, long f) { return k_syscall_uc(nr, a, b, c, d, e, f, NULL); }

static void on_sys(int, siginfo_t *si, void *u) {
	ucontext_t *uc = (ucontext_t *)u;
	greg_t *g = uc->uc_mcontext.gregs;
	long nr = si->si_syscall;
	if (in_kernel) { herr("system call inside the simulated kernel"); snprintf(W->harness_msg, sizeof W->harness_msg, "system call %ld inside the simulated kernel", nr); halt_all(); }
	in_kernel = 1;
	long r;
	if (!_setjmp(efault_jmp)) r = k_syscall_uc(nr, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9], uc);
	else r = -EFAULT;
	in_kernel = 0;
	g[REG_RAX] = r;
}
static void on_crash(int s, siginfo_t *si, void *u) {
	ucontext_t *uc = (ucontext_t *)u;
	if (in_kernel) {
		if ((s == SIGSEGV || s == SIGBUS) && !W->proc[self_slot].stub) _longjmp(efault_jmp, 1);
		herr("crash inside the simulated kernel");
		snprintf(W->harness_msg, sizeof W->harness_msg, "crash in simulated kernel sig %d rip %llx", s, (unsigned long long)uc->uc_mcontext.gregs[REG_RIP]);
		halt_all();
	}
	in_kernel = 1;
	k_die(s, (uint64_t)uc->uc_mcontext.gregs[REG_RIP], (uint64_t)si->si_addr);
}

static void __attribute__((noinline)) fill_stack(uint64_t seed, uint32_t mode) {
	volatile uint8_t buf[160 << 10];
	for (size_t i = 0; i < sizeof buf; i += 8) {
		uint64_t v = mode == 0 ? 0 : mode == 1 ? ~0ULL : mode == 2 ? 0x4141414141414141ULL : mix64(seed + i);
		*(volatile uint64_t *)(buf + i) = v;
	}
}

static void install_filter(void) {
	uint32_t lo = (uint32_t)(uintptr_t)raw6, hi = (uint32_t)(uintptr_t)raw6_end;
	struct sock_filter fl[] = {
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 4),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)),
		BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, lo, 0, 2),
		BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, hi, 1, 0),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
#define ALLOW(n) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, n, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
		ALLOW(SYS_rt_sigreturn), ALLOW(SYS_munmap), ALLOW(SYS_mprotect), ALLOW(SYS_brk), ALLOW(SYS_madvise),
		ALLOW(SYS_mremap), ALLOW(SYS_futex), ALLOW(SYS_sched_yield), ALLOW(SYS_set_robust_list), ALLOW(SYS_arch_prctl),
		ALLOW(SYS_rseq), ALLOW(SYS_restart_syscall),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 3),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[4])),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0xffffffffu, 0, 1),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
	};
	struct sock_fprog pr = { (unsigned short)(sizeof fl / sizeof fl[0]), fl };
	raw6(SYS_prctl, PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0, 0);
	if (raw6(SYS_prctl, PR_SET_SECCOMP, SECCOMP_MODE_FILTER, (long)&pr, 0, 0, 0)) { herr("cannot install seccomp filter"); halt_all(); }
}

extern "C" int skull_main(int, char **);
extern char **environ;
static char *envv[MAXENV + 1];
static char *argvv[MAXARG + 1];

// Entry of a simulated top-level process (already forked by the spawner).
extern "C" void sim_enter(int slot) {
	self_slot = slot;
	raw6(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = 60; rl.rlim_max = 62;
	setrlimit(RLIMIT_CPU, &rl);
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
	sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO;
	sigaction(SIGSYS, &sa, NULL);
	sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
	signal(SIGCHLD, SIG_DFL);
	sigset_t es; sigemptyset(&es); sigprocmask(SIG_SETMASK, &es, NULL);
	Proc *p = &W->proc[slot];
	Cmd *c = &W->cmd[p->cmd];
	for (int i = 0; i < c->argc; i++) argvv[i] = (char *)W->heap + c->argv[i];
	argvv[c->argc] = NULL;
	for (int i = 0; i < c->envc; i++) envv[i] = (char *)W->heap + c->envv[i];
	envv[c->envc] = NULL;
	environ = envv;
	arena_init();
	wait_token();
	install_filter();
	fill_stack(W->cfg.seed ^ 77, W->cfg.stackfill);
	outside_request = c->kind == CMD_HOST;
	int r = c->kind == CMD_CLI ? skull_main(c->argc, argvv) : host_main(p->cmd);
	exit(r);
}

// ------------------------------------------- what host.c asks and reports
extern "C" int host_argc(int c, int r) { return W->cmd[c].req[r].argc; }
extern "C" const char *host_argv(int c, int r, int i) { return w_cstr(W->cmd[c].req[r].argv[i]); }
extern "C" int host_nreq(int c) { return W->cmd[c].nreq; }
static uint64_t fdmask_of(void) { uint64_t m = 0; for (int i = 0; i < 64; i++) if (W->proc[self_slot].fds[i]) m |= 1ULL << i; return m; }
static uint32_t kid_mask(void) {
	uint32_t m = 0;
	for (int i = 0; i < MAXPROC; i++) if (i != self_slot && W->proc[i].parent == self_slot && W->proc[i].state != P_FREE && W->proc[i].state != P_DEAD) m |= 1u << i;
	return m;
}
// what belongs to the program that uses the compiler: the compiler has no business changing it
static void own_state(uint64_t *v) {
	Proc *p = &W->proc[self_slot];
	v[0] = fnv(p->cwd, strlen(p->cwd), FNV0);
	v[1] = (uint64_t)p->umask_;
	v[2] = fnv(p->sah, sizeof p->sah, fnv(&p->sigign, sizeof p->sigign, FNV0));
	v[3] = 0; raw6(SYS_rt_sigprocmask, SIG_BLOCK, 0, (long)&v[3], 8, 0, 0);
	v[4] = FNV0; for (int i = 0; i < MAXFD; i++) if (p->fds[i]) { Ofd *o = &W->ofd[p->fds[i] - 1]; int64_t w[5] = { i, p->fds[i], p->cloexec[i], o->flags, i > 2 ? (int64_t)o->pos : 0 }; v[4] = fnv(w, sizeof w, v[4]); }
	int64_t w[4] = { p->alarm_, p->sid, p->nice_, p->timers };
	v[5] = fnv(p->rl, sizeof p->rl, fnv(w, sizeof w, FNV0));
	v[6] = FNV0; for (char **e = environ; e && *e; e++) v[6] = fnv(*e, strlen(*e) + 1, v[6]);
}
extern "C" void host_own(int c, int r, int after, int slot, const void *what, long n) { Req *q = &W->cmd[c].req[r]; uint64_t *v = after ? q->own1 : q->own0; v[slot] = fnv(what, (size_t)n, v[slot] ? v[slot] : FNV0); }
extern "C" void host_before(int c, int r) {
	outside_request = 0;
	Cmd *m = &W->cmd[c]; Req *q = &m->req[r];
	q->fds_before = fdmask_of(); q->kids_before = kid_mask(); q->step0 = W->step; q->begun = 1;
	q->err_off0 = (uint32_t)W->ino[m->err_ino].size; q->out_off0 = (uint32_t)W->ino[m->out_ino].size;
	q->live_before = arena_live();
	own_state(q->own0);
}
extern "C" void host_after(int c, int r, int ret) {
	outside_request = 1;
	Cmd *m = &W->cmd[c]; Req *q = &m->req[r];
	q->fds_after = fdmask_of(); q->kids_after = kid_mask(); q->step1 = W->step; q->ret = ret; q->done = 1;
	q->err_off1 = (uint32_t)W->ino[m->err_ino].size; q->out_off1 = (uint32_t)W->ino[m->out_ino].size;
	q->live_after = arena_live();
	own_state(q->own1);
}
extern "C" int host_nstray(int c) { return W->cmd[c].stray; }
extern "C" int host_stray_steps(int c, int i) { return W->cmd[c].stray_steps[i]; }
extern "C" int host_stray_status(int c, int i) { return W->cmd[c].stray_status[i]; }
extern "C" void host_stray_seen(int c, int i, int ok, int st) { W->cmd[c].stray_seen[i] = ok; W->cmd[c].stray_got[i] = st; }

// ------------------------------------------------------------ worker side
static int mkstream(int cmd, int fd, int kind) {
	int i = ino_new(T_STREAM, kind == SK_TTY ? 0620 : 0600);
	W->ino[i].skind = kind; W->ino[i].stream_cmd = cmd; W->ino[i].stream_fd = fd; W->ino[i].nlink = 1;
	return i;
}
// Creates the top-level processes of all commands.
static void setup_procs(void) {
	for (uint32_t i = 0; i < W->ncmd; i++) {
		Cmd *c = &W->cmd[i];
		Proc *p = &W->proc[i];
		memset((void *)p, 0, sizeof *p);
		c->slot = (int)i;
		p->state = P_RUN; p->pid = W->cfg.pidbase + (int)W->nprocs++; p->parent = -1; p->key = (int)i + 1; p->cmd = (int)i;
		p->umask_ = 022; p->sigign = c->sigign;
		snprintf(p->cwd, sizeof p->cwd, "%s", w_cstr(c->cwd));
		self_slot = (int)i;
		int nul = w_lookup("/dev/null");
		auto put = [&](int fd, int ino, int fl, const char *nm) { int o = ofd_new(ino, fl, nm); W->ofd[o].opener = -2; p->fds[fd] = o + 1; };
		if (!c->skind[0]) put(0, nul, O_RDONLY, "/dev/null");
		else if (c->skind[0] - 1 != SK_CLOSED) put(0, mkstream((int)i, 0, c->skind[0] - 1), O_RDONLY, "stdin:");
		c->out_ino = mkstream((int)i, 1, c->skind[1]); if (c->skind[1] != SK_CLOSED) put(1, c->out_ino, O_WRONLY, "stdout:");
		c->err_ino = mkstream((int)i, 2, c->skind[2]); if (c->skind[2] != SK_CLOSED) put(2, c->err_ino, O_WRONLY, "stderr:");
		for (int k = 0; k < c->fdpad; k++) put(3 + k, nul, O_RDONLY, "/dev/null");
		self_slot = -1;
	}
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

extern "C" int w_run(double timeout_s) {
	W->done = 0; W->quit = 0;
	W->clock = 0;
	W->disk = W->cfg.disk;
	W->nsys_total = 0; W->iobytes = 0;
	setup_procs();
	W->cur = -1;
	uint32_t ack = __atomic_load_n(&W->spawn_ack, __ATOMIC_SEQ_CST);
	__atomic_add_fetch(&W->spawn_req, 1, __ATOMIC_SEQ_CST);
	fut_wake(&W->spawn_req);
	double t0 = now();
	while (__atomic_load_n(&W->spawn_ack, __ATOMIC_SEQ_CST) == ack) {
		struct timespec ts = { 1, 0 };
		syscall(SYS_futex, &W->spawn_ack, FUTEX_WAIT, ack, &ts, 0, 0);
		if (now() - t0 > 60) { herr("spawner dead"); return 2; }
	}
	int first = choose_next(-1);
	if (first >= 0) give_token(first); else W->done = 1;
	t0 = now();
	int rc = 0;
	while (!__atomic_load_n(&W->done, __ATOMIC_SEQ_CST)) {
		struct timespec ts = { 0, 200000000 };
		syscall(SYS_futex, &W->done, FUTEX_WAIT, 0, &ts, 0, 0);
		if (now() - t0 > timeout_s) {
			// a process that burns CPU without ever making a system call hangs;
			// one that gets no CPU does not
			int cur = W->cur; double cpu = -1;
			if (cur >= 0 && cur < MAXPROC && W->proc[cur].realpid > 0) {
				clockid_t cid;
				struct timespec t;
				if (!clock_getcpuclockid(W->proc[cur].realpid, &cid) && !clock_gettime(cid, &t)) cpu = (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
			}
			if (cpu > timeout_s / 2) { rc = 1; break; }
			if (now() - t0 > timeout_s * 12) { rc = 3; break; }
		}
	}
	// end whatever is left
	for (int i = 0; i < MAXPROC; i++) if (W->proc[i].realpid > 0) {
		Proc *p = &W->proc[i];
		if (!p->exited) kill(p->realpid, SIGKILL);
	}
	ack = W->spawn_ack;
	W->quit = 1;
	__atomic_add_fetch(&W->spawn_req, 1, __ATOMIC_SEQ_CST);
	fut_wake(&W->spawn_req);
	while (__atomic_load_n(&W->spawn_ack, __ATOMIC_SEQ_CST) == ack) {
		struct timespec ts = { 1, 0 };
		syscall(SYS_futex, &W->spawn_ack, FUTEX_WAIT, ack, &ts, 0, 0);
		if (now() - t0 > timeout_s * 12 + 90) { herr("spawner dead"); return 2; }
	}
	return rc;
}

// The spawner never allocates, so that every simulated process starts from the
// same memory image whatever the worker did before.
extern "C" void spawner_main(void) {
	uint32_t seen = 0;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	for (;;) {
		while (__atomic_load_n(&W->spawn_req, __ATOMIC_SEQ_CST) == seen) fut_wait(&W->spawn_req, seen);
		seen++;
		if (W->quit) {
			// reap everything of the finished run
			for (;;) { int st; pid_t r = waitpid(-1, &st, __WALL); if (r < 0 && errno == ECHILD) break; }
		}
		else for (uint32_t i = 0; i < W->ncmd; i++) {
			pid_t r = fork();
			if (r == 0) { sim_enter((int)i); _exit(99); }
			W->proc[i].realpid = r;
		}
		__atomic_add_fetch(&W->spawn_ack, 1, __ATOMIC_SEQ_CST);
		fut_wake(&W->spawn_ack);
	}
}
