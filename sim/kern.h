// Simulated kernel: shared state and interface.
//
// Everything the compiler under test does outside its own memory goes through
// system calls.  In a simulated process every system call (apart from pure
// memory management) raises SIGSYS (seccomp) and is answered by kern.cc from
// the World below, which lives in memory shared between the worker (driver)
// and the simulated processes.  No file, process, clock or random number of
// the real system is visible, apart from read-only locale data of libc.
#pragma once
#include <stddef.h>
#include <stdint.h>

enum {
	KEYMUL = 24, MAXPROC = 32, MAXFD = 96, MAXOFD = 160, MAXINO = 400, MAXDENT = 500,
	MAXEV = 6000, MAXMUT = 1500, MAXFAULT = 64, MAXPICK = 3000, MAXEDIT = 12,
	MAXCMD = 12, MAXARG = 40, MAXENV = 24, MAXCC = 24, MAXREQ = 10,
	MAXIMPOPEN = 200, PATHMAX = 1400,
};

enum Cls {
	C_OPEN, C_READ, C_WRITE, C_OUT, C_ERR, C_CLOSE, C_SEEK, C_STAT, C_UNLINK,
	C_FORK, C_EXEC, C_WAIT, C_MMAP, C_CWD, C_MISC, C_SYS, C_CC, C_ALLOC,
	C_ANY, NCLS
};

enum Kind {
	F_NONE, F_ERR, F_SHORT, F_EOF, F_KILL, F_KILL_AFTER, F_POWER, F_EDIT,
	F_DISK, F_NULL, F_CCEXIT, F_CCSIG, F_DELAY, NKIND
};

struct Fault {
	int16_t key;     // process key, -1 = any
	uint8_t cls;     // Cls
	uint8_t kind;    // Kind
	int32_t nth;     // 0-based occurrence of that class in that process
	int32_t a, b;    // kind specific
	uint8_t sticky;  // also at every later occurrence
	uint32_t fired;  // out: how often it took effect
};

enum { T_NONE, T_FILE, T_DIR, T_STREAM, T_NULL, T_FULL, T_PIPE, T_HOST, T_LINK };
enum { SK_PIPE, SK_FILE, SK_TTY, SK_CLOSED };

struct Inode {
	uint8_t used, type, tracked, skind;
	uint16_t mode;
	uint8_t dirty;        // written and not fsynced since the world started
	uint8_t fresh;        // created (dirent) since the world started
	int32_t nlink, opens;
	uint64_t data, size, cap;     // offset into the shared heap
	uint64_t dsize;               // size that was durable at the start
	uint64_t deliv, deliv_hi, deliv_run, deliv_cap; // bytes delivered to readers
	uint64_t eofat[8]; uint32_t neof;    // offsets at which a reader was told "end of file"
	int32_t reads;
	int32_t pr, pw;               // pipe readers/writers
	int32_t stream_cmd, stream_fd;
	uint64_t mtime;               // 0: as it was before the world started
};

struct Dent { int32_t dir, ino; char name[256]; };

struct Ofd {
	int32_t used, ino, refs, flags, hostfd;
	uint64_t pos;
	uint8_t wrote;
	int16_t opener;
	char path[PATHMAX];
};

enum { P_FREE, P_RUN, P_WAIT, P_VFORK, P_PIPE, P_ZOMBIE, P_DEAD };

struct Proc {
	int32_t state, pid, parent, key, realpid, cmd, nchild, status;
	int32_t fds[MAXFD];       // ofd index + 1
	uint8_t cloexec[MAXFD];
	char cwd[1400];
	uint32_t go;
	uint32_t cnt[NCLS];
	uint64_t sigign;
	int32_t pendkill, stub, crashed, umask_;
	uint32_t nsys, wbytes, delay_until;
	uint64_t crash_rip, crash_addr;
	int32_t vfork_child;
	int32_t heap_err;         // heap misuse code
	int32_t exited;
	uint32_t end_step;
	uint32_t nalloc_live;
	uint64_t fds_at_exit;     // descriptors open when it ended
	uint32_t first_fault_step;
	int32_t stopped;          // 1: held by a stop signal, not yet reported; 2: reported
	int32_t reaped;           // its parent learned its end through a wait call
	uint64_t sah[65], saf[65]; // signal handlers and their flags
	uint64_t rl[16][2]; uint8_t rlset[16];
	int32_t alarm_, sid, nice_, timers;
};

struct Ev { uint32_t step; int16_t key; int16_t nr; int64_t ret; uint32_t arg; uint8_t fault; uint8_t cls; };

enum { M_CREATE, M_TRUNC, M_WRITE, M_UNLINK, M_RENAME, M_CHMOD, M_MKDIR, M_RMDIR, M_LINK, M_OTHER };
struct Mut { uint32_t step; int16_t key; uint8_t op, stub; int32_t ino; uint32_t path; uint32_t path2; };

enum { E_TRUNC, E_WRITE, E_APPEND, E_REPLACE, E_UNLINK, E_CHMOD, E_MKDIR, E_CREATE };
struct Edit { uint8_t op; uint32_t path; uint64_t len; uint64_t data, dlen; };

struct CcRun {
	int32_t key, cmd, parent_pid, started, ended, status, ninputs;
	uint32_t step_start, step_end, cmdline, out;
	uint32_t in_path[8]; uint64_t in_hash0[8], in_hash1[8]; uint64_t in_size[8];
	uint64_t fdmask;         // descriptors open (inherited) in the child
	uint64_t fdmask_leak;    // of those, opened by the compile and not stdio
	int32_t how;             // 0 direct, 1 through sh
	int32_t weird;           // command substitution or extra commands met
	int32_t not_cc;          // something that is not the C compiler was run
};

// One command of a scenario = one simulated top-level process.
enum { CMD_CLI, CMD_HOST };
struct Req {               // host mode: one library request
	int32_t argc; uint32_t argv[MAXARG];   // flags only understood by host.c
	// results
	int32_t ret; uint64_t fds_before, fds_after; uint32_t err_off0, err_off1, out_off0, out_off1;
	uint32_t kids_before, kids_after; uint32_t step0, step1; int32_t done, begun;
	uint32_t nfiles; uint32_t files[6];
	int64_t live_before, live_after;
	uint64_t own0[12], own1[12];   // what belongs to the calling program, before and after
};
struct Cmd {
	int32_t kind, argc, envc, slot, start_after;  // start_after: -1 at once
	uint32_t argv[MAXARG], envv[MAXENV], cwd;
	uint8_t skind[3];
	uint8_t in_closed;
	int32_t fdpad;             // extra inherited descriptors
	uint64_t sigign;
	int32_t nreq; Req req[MAXREQ];
	int32_t stray;             // host mode: number of unrelated children
	int32_t stray_steps[3], stray_status[3], stray_seen[3], stray_got[3];
	int32_t out_ino, err_ino;
};

struct Config {
	uint64_t seed;
	uint32_t fill;            // heap fill mode
	uint32_t gap;             // heap placement mode
	uint32_t reuse;           // recycle freed blocks
	uint32_t stackfill;
	uint32_t blksize;
	int32_t pidbase;
	uint64_t clock0;
	uint32_t sched_permille;  // 0: explicit picks only
	uint64_t sched_seed;
	uint32_t budget;          // system calls
	uint32_t allocbudget;
	int64_t disk;             // free bytes, -1 unlimited
	uint32_t verbose;
	uint32_t shortio;         // per mille of reads/writes made short (benign)
};

struct World {
	uint32_t spawn_req, spawn_ack;  // worker <-> spawner; never reset
	Config cfg;
	uint32_t step, nev, nmut, nfault, npick, npicklog, nedit, ncmd, ncc, nprocs;
	int32_t cur;
	uint32_t done;             // futex word
	int32_t deadlock, livelock, power, harness_err, unsupported;
	char harness_msg[200];
	uint64_t clock;
	int64_t disk;
	uint64_t hash;             // rolling hash of the execution
	uint64_t heap_top, heap_cap;
	int32_t spawn_cmd;
	int32_t quit;
	uint32_t firedk[NKIND][NCLS];
	uint32_t shortio_fired;
	uint64_t nsys_total, nalloc_total, iobytes;
	uint32_t nswitch;
	uint32_t nflog; struct { uint32_t step; int16_t fault, key; } flog[256];
	uint32_t nimp; 
	struct { uint32_t path; int32_t ret; int16_t key; uint32_t step; int32_t isdir; } imp[MAXIMPOPEN];
	Inode ino[MAXINO];
	Dent dent[MAXDENT]; uint32_t ndent;
	Ofd ofd[MAXOFD];
	Proc proc[MAXPROC];
	Cmd cmd[MAXCMD];
	Fault fault[MAXFAULT];
	Edit edit[MAXEDIT];
	struct { uint32_t step; int32_t slot; } pick[MAXPICK], picklog[MAXPICK];
	CcRun cc[MAXCC];
	Mut mut[MAXMUT];
	Ev ev[MAXEV];
	uint8_t heap[];            // shared heap (paths, file contents)
};

extern World *W;
extern int self_slot;          // slot of this simulated process, -1 outside

#define SHEAP ((uint64_t)160 << 20)

#ifdef __cplusplus
extern "C" {
#endif
// ---- used by the driver (outside simulation)
void w_reset(void);
uint64_t w_alloc(uint64_t n);
uint32_t w_str(const char *s);
static inline const char *w_cstr(uint32_t off) { return (const char *)W->heap + off; }
int w_mkdirs(const char *path, int mode);
int w_mkfile(const char *path, const void *data, uint64_t n, int mode);
int w_lookup(const char *abspath);          // inode or -errno, no permission checks
void w_power_loss(uint64_t seed);
void w_rm(const char *abspath);
void w_setdata(int ino, const void *data, uint64_t n);
void w_restart(void);                        // keep the files, forget the processes
void spawner_main(void);                     // never returns
int w_run(double timeout_s);                 // 0 ok, 1 wall-clock timeout
// ---- used inside simulated processes
void sim_enter(int slot);
void *sim_malloc(size_t n);
void *sim_calloc(size_t n, size_t m);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
void arena_init(void);
void arena_check(void);
int64_t arena_live(void);
int host_main(int cmd);
void stub_exec(const char *path, char *const *argv, char *const *envp) __attribute__((noreturn));
long k_syscall(long nr, long a, long b, long c, long d, long e, long f);
long raw6(long nr, long a, long b, long c, long d, long e, long f);
void k_die(int signo, uint64_t rip, uint64_t addr) __attribute__((noreturn));
Fault *k_fault(int cls);
void k_mix(uint64_t v);
void k_fired(Fault *f);
uint64_t k_rng(uint64_t salt, uint64_t n);
uint64_t fnv(const void *p, size_t n, uint64_t h);
#ifdef __cplusplus
}
#endif
#define FNV0 1469598103934665603ULL
