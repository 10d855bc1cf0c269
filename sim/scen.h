// A scenario is one complete, explicit description of a simulated execution:
// files, commands, options, faults, edits by others, schedule, configuration.
// Everything random has been decided when a scenario exists; running it twice
// gives the same execution, and it can be written to and read from a file.
#pragma once
#include "kern.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using std::string;
using std::vector;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ULL + 0x1234567) { next(); next(); }
	uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
	bool chance(int pct) { return below(100) < (uint64_t)pct; }
	template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

enum { PK_OTHER, PK_VALID, PK_INVALID, PK_EMPTY, PK_MAYBE };   // what is known about a program text
struct FileSpec {
	int type = T_FILE, mode = 0644, tracked = 0, kind = PK_OTHER;
	string path, data;
};
struct CmdSpec {
	int kind = CMD_CLI;
	vector<string> argv, env;
	string cwd = "/w";
	int sk_out = SK_PIPE, sk_err = SK_PIPE, fdpad = 0;
	int sk_in = -1;                // -1: /dev/null, else SK_*
	uint64_t sigign = 0;
	vector<vector<string>> reqs;
	vector<std::pair<int, int>> stray;  // steps, status
};
struct EditSpec { int op = 0; string path, data; uint64_t len = 0; };
struct PhaseSpec {
	Config cfg;
	vector<CmdSpec> cmds;
	vector<Fault> faults;
	vector<EditSpec> edits;
	vector<std::pair<uint32_t, int>> picks;
	uint64_t power_seed = 0;
	PhaseSpec();
};
struct Scen {
	string prop, cls, detail;
	uint64_t seed = 0;
	string variant;                   // which generator made it
	vector<FileSpec> files;
	vector<PhaseSpec> phases;
};

string scen_write(const Scen &s);
bool scen_read(const string &text, Scen &s, string &err);

// ---- result of one phase
struct FState { int type = 0, mode = 0; string data; bool operator==(const FState &o) const { return type == o.type && mode == o.mode && data == o.data; } };
typedef std::map<string, FState> Fs;
struct ProcOut { int key, cmd, reaped, parent_key, status, stub, crashed, heap_err, exited, state; uint32_t nsys, wbytes, end_step; uint64_t crash_rip, crash_addr, fds_at_exit; uint32_t cnt[NCLS]; };
struct CcOut { int key, cmd, started, ended, status, ninputs, how, weird, not_cc; uint32_t step_start, step_end; string cmdline, out; vector<string> in; vector<uint64_t> h0, h1; uint64_t leak; };
struct MutOut { uint32_t step; int key, op, stub; string path, path2; };
struct ImpOut { string path; int ret, key, isdir; uint32_t step; };
struct ReqOut { int begun, done, ret; string err, out; uint64_t fds0, fds1; uint32_t kids0, kids1, step0, step1; int64_t live0, live1; uint64_t own0[12], own1[12]; };
struct CmdOut { int status = 0, crashed = 0, heap_err = 0, exited = 0; uint64_t crash_rip = 0; string out, err; uint32_t nsys = 0, end_step = 0; vector<ReqOut> reqs; vector<std::pair<int, int>> stray; };
struct Outcome {
	bool ok = false;               // the simulator itself worked
	string problem;
	int deadlock = 0, livelock = 0, power = 0, hang = 0, unsupported = 0;
	vector<CmdOut> cmds;
	vector<ProcOut> procs;
	vector<CcOut> cc;
	vector<MutOut> muts;
	vector<ImpOut> imps;
	vector<uint32_t> fired;        // per fault
	struct Fl { uint32_t step; int fault, key; };
	vector<Fl> flog;               // which fault took effect when, in which process
	vector<std::pair<uint32_t, int>> picklog;
	vector<string> delivered;      // contents handed to readers of tracked files
	vector<vector<uint64_t>> eofat; // and where they were told "end of file"
	Fs fs;
	uint64_t hash = 0, nsys = 0, nalloc = 0, simtime = 0;
	uint32_t nswitch = 0, shortio = 0, steps = 0;
	uint32_t firedk[NKIND][NCLS];
	string trace;
	int exit_code(int c) const { return (cmds[c].status & 0x10000) ? (cmds[c].status & 0xff) : -1; }
	bool exit0(int c) const { return cmds[c].exited && cmds[c].status == 0x10000; }
	uint32_t total_fired() const { uint32_t n = 0; for (auto f : fired) n += f; return n; }
	const ProcOut *proc(int key) const { for (auto &p : procs) if (p.key == key) return &p; return nullptr; }
};

// ---- running
extern const char *cls_name[], *kind_name[];
struct Stats {
	uint64_t runs = 0, refs = 0, sys = 0, alloc = 0, switches = 0, simtime_ns = 0, shortio = 0, harness = 0;
	uint64_t fired[NKIND][NCLS] = {};
};
extern Stats *ST;
void base_world(void);
Fs initial_fs(const vector<FileSpec> &files);      // what is there before anything runs
Outcome run_phase(const Scen &s, size_t ph, bool fresh, bool trace = false);   // fresh: install s.files
const Outcome &ref_run(const vector<FileSpec> &files, const CmdSpec &cmd);      // fault free, alone, cached
void ref_clear(void);

// ---- what the manual says about one command
enum Mode { MO_NONE, MO_LINK, MO_OBJ, MO_ASM, MO_LL, MO_C };
struct Model {
	Mode mode = MO_NONE;
	bool bad = false;             // the options contradict each other
	bool to_stdout = false;
	string src, src_abs, out_abs, obj_abs;   // obj_abs: only when linking
	bool quiet = false, werror = false, color = false, debug = false, noverify = false;
	int opt = 0;
	string extra;
	std::set<string> allowed;     // every path the command may touch
};
Model model_of(const CmdSpec &c);
struct ReqPlan { vector<string> opts, files; };
ReqPlan plan_of(const vector<string> &q);
Model model_req(const vector<string> &req, const string &file, const string &cwd);
string abspath(const string &cwd, const string &p);
string dirname_of(const string &p);

struct Verdict { bool bad = false, error = false; string cls, detail; uint64_t hash = 0; bool nontrivial = false; uint64_t sig = 0; };
extern vector<vector<std::pair<uint32_t, int>>> *last_picks;   // schedule of the last judged scenario, per phase
Verdict judge(const Scen &s, bool trace = false, string *trace_out = nullptr);
bool generate(const string &prop, uint64_t seed, bool thorough, Scen &out);
extern std::map<string, uint64_t> *PROBE;
void probe(const char *name, uint64_t n = 1);
void load_corpus(const char *dir);
string gen_sample(uint64_t seed);
