// Allocator behind the allocation calls of the compiler's own code (its object
// files have malloc & co. renamed to sim_*).  It decides, from the scenario,
// which allocation fails, what fresh memory contains, where it lies, and it
// notices overflows, double frees and writes after free.
#include "kern.h"

#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <sys/time.h>

extern "C" char *getenv(const char *);
extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);

struct Hdr { uint64_t size; uint32_t magic, freed; Hdr *prev; uint64_t foot; };
static_assert(sizeof(Hdr) == 32, "");
enum { MAGIC = 0x5ca1ab1e, RZ = 16 };
static uint8_t *arena, *top, *end;
static Hdr *last;
static uint64_t seq, livecnt;
static Hdr *freelist[40];
static const uint64_t ARENA = 48ULL << 30;

extern "C" void arena_init(void) {
	if (!arena) return;
	top = arena; end = arena + ARENA; last = NULL; seq = 0; livecnt = 0;
	memset(freelist, 0, sizeof freelist);
}
// called once, in the process from which all others are forked
extern "C" void arena_reserve(void) {
	arena = (uint8_t *)mmap((void *)0x200000000000ULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
}
extern "C" int64_t arena_live(void) { return (int64_t)livecnt; }
static bool mine(const void *p) { return arena && (uint8_t *)p >= arena && (uint8_t *)p < arena + ARENA; }

static uint64_t h64(uint64_t z) {
	z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
static void fill(uint8_t *p, size_t n, uint32_t mode, uint64_t salt) {
	switch (mode) {
		case 0: memset(p, 0, n); break;
		case 1: memset(p, 0xff, n); break;
		case 2: memset(p, 0xa5, n); break;
		case 3: { uint64_t v = h64(W->cfg.seed ^ salt); for (size_t i = 0; i < n; i++) { if (!(i & 7)) v = h64(v); p[i] = (uint8_t)(v >> ((i & 7) * 8)); } break; }
		case 4: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)"x := 1\nreturn 7\n"[i & 15]; break;
		case 5: for (size_t i = 0; i < n; i++) p[i] = (i & 3) ? 0 : 'a' + (uint8_t)(i & 15); break; // looks like UTF-32 text
		default: memset(p, 1, n); break;
	}
}
static void heap_error(int code) { if (self_slot >= 0 && !W->proc[self_slot].heap_err) W->proc[self_slot].heap_err = code; }
static int cls_of(size_t n) { int c = 0; while (((size_t)16 << c) < n) c++; return c; }

extern "C" void *sim_malloc(size_t n) {
	if (self_slot < 0) return NULL;
	Proc *p = &W->proc[self_slot];
	W->nalloc_total++;
	Fault *f = k_fault(C_ALLOC);
	if (f && f->kind == F_NULL) { k_fired(f); errno = ENOMEM; return NULL; }
	if (n > (256ULL << 20)) { errno = ENOMEM; return NULL; }
	seq++; livecnt++;
	(void)p;
	if (W->cfg.reuse) {
		int c = cls_of(n);
		if (c < 40 && freelist[c]) {
			Hdr *h = freelist[c];
			if (((size_t)16 << c) >= n && h->foot >= n) {
				freelist[c] = *(Hdr **)(h + 1);
				h->size = n; h->freed = 0;
				uint8_t *u = (uint8_t *)(h + 1);
				if (W->cfg.reuse == 1) { /* recycled memory keeps what the former owner left */ }
				else fill(u, n, W->cfg.fill, seq);
				memset(u + n, 0xfb, RZ);
				return u;
			}
		}
	}
	size_t cap = W->cfg.reuse ? ((size_t)16 << cls_of(n)) : n;
	size_t gap = 0;
	switch (W->cfg.gap) {
		case 1: gap = (h64(W->cfg.seed ^ seq) % 17) * 16; break;
		case 2: gap = (h64(W->cfg.seed ^ seq) % 5) * 4096 + (h64(seq) % 8) * 16; break;
		default: break;
	}
	uint8_t *at = top + gap;
	size_t tot = (sizeof(Hdr) + cap + RZ + 15) & ~15UL;
	if (at + tot + 8192 > end) { W->unsupported = 1; errno = ENOMEM; return NULL; }
	if (W->cfg.gap == 3 && seq < 1500) { // block ends at an inaccessible page
		uint8_t *pg = (uint8_t *)(((uintptr_t)at + tot + 4095) & ~4095UL);
		at = pg - ((cap + 15) & ~15UL) - sizeof(Hdr);
		if (at < top) { pg += 4096; at += 4096; }
		raw6(SYS_mprotect, (long)pg, 4096, PROT_NONE, 0, 0, 0);
		top = pg + 4096;
		Hdr *h = (Hdr *)at;
		h->size = n; h->magic = MAGIC; h->freed = 0; h->prev = last; h->foot = 0; last = h;
		uint8_t *u = (uint8_t *)(h + 1);
		fill(u, n, W->cfg.fill, seq);
		return u;
	}
	top = at + tot;
	Hdr *h = (Hdr *)at;
	h->size = n; h->magic = MAGIC; h->freed = 0; h->prev = last; h->foot = cap; last = h;
	uint8_t *u = (uint8_t *)(h + 1);
	fill(u, n, W->cfg.fill, seq);
	memset(u + n, 0xfb, RZ);
	return u;
}
static void check_rz(Hdr *h) {
	if (!h->foot && W->cfg.gap == 3) return;
	uint8_t *u = (uint8_t *)(h + 1) + h->size;
	for (int i = 0; i < RZ; i++) if (u[i] != 0xfb) { heap_error(3); return; }
}
extern "C" void sim_free(void *q) {
	if (!q) return;
	if (!mine(q)) { __libc_free(q); return; }
	Hdr *h = (Hdr *)q - 1;
	if (((uintptr_t)q & 15) || h->magic != MAGIC) { heap_error(2); k_die(SIGABRT, (uint64_t)__builtin_return_address(0), 0); }
	if (h->freed) { heap_error(1); k_die(SIGABRT, (uint64_t)__builtin_return_address(0), 0); }
	check_rz(h);
	h->freed = 1; livecnt--;
	if (W->cfg.reuse && h->foot) {
		int c = cls_of(h->foot);
		if (((size_t)16 << c) == h->foot) { *(Hdr **)(h + 1) = freelist[c]; freelist[c] = h; return; }
	}
	if (h->size > (256 << 10) || (h->size > 8192 && (uint64_t)(top - arena) > (512ULL << 20))) {
		uintptr_t a = ((uintptr_t)q + 4095) & ~4095UL, b = ((uintptr_t)q + h->size) & ~4095UL;
		if (b > a) raw6(SYS_madvise, (long)a, (long)(b - a), MADV_DONTNEED, 0, 0, 0);
		h->freed = 2;
	}
	else memset(q, 0xdb, h->size);
}
extern "C" void *sim_calloc(size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	void *p = sim_malloc(n);
	if (p) memset(p, 0, n);
	return p;
}
extern "C" void *sim_realloc(void *q, size_t n) {
	if (!q) return sim_malloc(n);
	if (!mine(q)) {
		Fault *f = k_fault(C_ALLOC);
		if (f && f->kind == F_NULL) { k_fired(f); errno = ENOMEM; return NULL; }
		return __libc_realloc(q, n);
	}
	Hdr *h = (Hdr *)q - 1;
	if (((uintptr_t)q & 15) || h->magic != MAGIC || h->freed) { heap_error(h->magic == MAGIC ? 1 : 2); k_die(SIGABRT, (uint64_t)__builtin_return_address(0), 0); }
	void *p = sim_malloc(n);
	if (!p) return NULL;
	memcpy(p, q, h->size < n ? h->size : n);
	sim_free(q);
	return p;
}
// at the end of the process: overflows of blocks never freed, writes after free
extern "C" void arena_check(void) {
	for (Hdr *h = last; h; h = h->prev) {
		if (h->magic != MAGIC) { heap_error(4); return; }
		if (!h->freed) check_rz(h);
		else if (h->freed == 1 && !W->cfg.reuse) {
			uint8_t *u = (uint8_t *)(h + 1);
			for (uint64_t i = 0; i < h->size; i++) if (u[i] != 0xdb) { heap_error(5); return; }
		}
	}
}

// ---- the rest of the family
extern "C" char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
extern "C" char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
extern "C" int sim_vasprintf(char **out, const char *f, va_list ap) {
	va_list ap2; va_copy(ap2, ap);
	int n = vsnprintf(NULL, 0, f, ap2); va_end(ap2);
	if (n < 0) return n;
	char *p = (char *)sim_malloc((size_t)n + 1);
	if (!p) return -1;
	vsnprintf(p, (size_t)n + 1, f, ap);
	*out = p;
	return n;
}
extern "C" int sim_asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(out, f, ap); va_end(ap); return n; }
extern "C" void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } return sim_realloc(p, n); }
extern "C" void *sim_aligned_alloc(size_t al, size_t n) { if (al > 16) { errno = ENOMEM; return NULL; } return sim_malloc(n); }
extern "C" int sim_posix_memalign(void **o, size_t al, size_t n) { void *p = sim_aligned_alloc(al, n); if (!p) return ENOMEM; *o = p; return 0; }

// libc functions that take over a pointer (getline, fclose of a memstream ...)
extern "C" void free(void *p) { if (mine(p)) sim_free(p); else __libc_free(p); }
extern "C" void *realloc(void *p, size_t n) { if (mine(p)) return sim_realloc(p, n); return __libc_realloc(p, n); }

// ---- clocks read through the vDSO would escape the system-call seam
extern "C" int sim_clock_gettime(clockid_t, struct timespec *t) {
	uint64_t n = W->cfg.clock0 + W->clock; t->tv_sec = (time_t)(n / 1000000000); t->tv_nsec = (long)(n % 1000000000); return 0;
}
extern "C" time_t sim_time(time_t *t) { time_t v = (time_t)((W->cfg.clock0 + W->clock) / 1000000000); if (t) *t = v; return v; }
extern "C" int sim_gettimeofday(struct timeval *t, void *) { uint64_t n = W->cfg.clock0 + W->clock; t->tv_sec = (time_t)(n / 1000000000); t->tv_usec = (long)(n % 1000000000 / 1000); return 0; }
extern "C" clock_t sim_clock(void) { return (clock_t)(W->clock / 1000 + W->cfg.clock0 % 997); }

// ---- environment variables nobody set, and random numbers, are the seed's to choose (default configuration: absent, 0)
extern "C" char *sim_getenv(const char *name) {
	char *v = getenv(name);
	if (v || !W->cfg.stackfill || !strcmp(name, "COLOR")) return v; // COLOR is documented, and the scenarios set it themselves
	static char pool[6][24] = { "1", "", "yes", "0", "/nonexistent/x", "never" };
	uint64_t h = W->cfg.seed; for (const char *c = name; *c; c++) h = (h ^ (uint8_t)*c) * 0x100000001b3ULL;
	h ^= h >> 29;
	return h % 4 == 0 ? NULL : pool[(h >> 8) % 6];
}
static uint64_t rand_state;
static uint64_t next_rand() { rand_state = rand_state * 6364136223846793005ULL + 1442695040888963407ULL + W->cfg.seed * W->cfg.stackfill; return rand_state >> 33; }
extern "C" int sim_rand(void) { return (int)next_rand(); }
extern "C" long sim_random(void) { return (long)next_rand(); }
extern "C" double sim_drand48(void) { return (double)next_rand() / 2147483648.0; }
extern "C" long sim_lrand48(void) { return (long)next_rand(); }
extern "C" char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
