// Seeded search, minimisation, replay.
#include "scen.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sstream>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" void arena_reserve(void);
extern "C" void warm_llvm(void);

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
// stdio must stay untouched in the image the simulated processes start from
static void say(int fd, const char *f, ...) {
	char b[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	ssize_t r = write(fd, b, (size_t)n); (void)r;
}
static void put_file(const string &path, const string &data) {
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) return;
	size_t o = 0; while (o < data.size()) { ssize_t r = write(fd, data.data() + o, data.size() - o); if (r <= 0) break; o += (size_t)r; }
	close(fd);
}
static bool get_file(const string &path, string &out) {
	int fd = open(path.c_str(), O_RDONLY); if (fd < 0) return false;
	char b[65536]; ssize_t r; out.clear();
	while ((r = read(fd, b, sizeof b)) > 0) out.append(b, (size_t)r);
	close(fd); return true;
}

struct Shared { volatile uint32_t stop, found; volatile uint64_t next; };
static Shared *SH;

static void make_world() {
	size_t sz = offsetof(World, heap) + SHEAP;
	W = (World *)mmap((void *)0x300000000000ULL, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if (W == MAP_FAILED) { say(2, "cannot map the world\n"); _exit(2); }
	pid_t p = fork();
	if (p == 0) { spawner_main(); _exit(0); }
}
static void init_engine() { ST = new Stats(); PROBE = new std::map<string, uint64_t>(); make_world(); }

// --------------------------------------------------------------- minimising
static double min_deadline;
static int min_tests;
static bool still(const Scen &t, const string &cls) {
	if (now() > min_deadline) return false;
	ref_clear();
	min_tests++;
	Verdict v = judge(t);
	return v.bad && v.cls == cls;
}
template <class T> static void shrink_list(Scen &s, vector<T> &(*get)(Scen &, size_t), size_t ph, const string &cls) {
	size_t chunk = get(s, ph).size();
	while (chunk >= 1) {
		for (size_t i = 0; i < get(s, ph).size();) {
			if (now() > min_deadline) return;
			Scen t = s; auto &v = get(t, ph);
			size_t n = std::min(chunk, v.size() - i);
			v.erase(v.begin() + (long)i, v.begin() + (long)(i + n));
			if (still(t, cls)) s = t; else i += n;
		}
		if (chunk == 1) break;
		chunk /= 2;
	}
}
static vector<Fault> &g_faults(Scen &s, size_t p) { return s.phases[p].faults; }
static vector<std::pair<uint32_t, int>> &g_picks(Scen &s, size_t p) { return s.phases[p].picks; }
static vector<vector<string>> &g_reqs(Scen &s, size_t p) { return s.phases[p].cmds[0].reqs; }
static vector<string> &g_env(Scen &s, size_t p) { return s.phases[p].cmds[0].env; }

static void minimise(Scen &s, const string &cls, double seconds) {
	min_deadline = now() + seconds; min_tests = 0;
	{ // from a random to an explicit schedule
		Verdict v = judge(s); (void)v;
		auto pk = *last_picks;
		Scen t = s; bool any = false;
		for (size_t i = 0; i < t.phases.size() && i < pk.size(); i++) if (t.phases[i].cfg.sched_permille) { t.phases[i].cfg.sched_permille = 0; t.phases[i].picks = pk[i]; any = true; }
		if (any && still(t, cls)) s = t;
	}
	for (int round = 0; round < 2; round++) {
		for (size_t p = 0; p + 1 < s.phases.size() && s.phases.size() > 2;) { Scen t = s; t.phases.erase(t.phases.begin() + (long)p); if (still(t, cls)) s = t; else p++; }
		for (size_t p = 0; p < s.phases.size(); p++) { shrink_list<Fault>(s, g_faults, p, cls); shrink_list<std::pair<uint32_t, int>>(s, g_picks, p, cls); if (s.phases[p].cmds[0].reqs.size() > 1) shrink_list<vector<string>>(s, g_reqs, p, cls); shrink_list<string>(s, g_env, p, cls); }
		for (size_t i = 0; i < s.files.size();) { Scen t = s; t.files.erase(t.files.begin() + (long)i); if (still(t, cls)) s = t; else i++; }
		for (size_t p = 0; p < s.phases.size(); p++) {
			auto tryit = [&](void (*f)(PhaseSpec &)) { Scen t = s; f(t.phases[p]); if (scen_write(t) != scen_write(s) && still(t, cls)) s = t; };
			tryit([](PhaseSpec &x) { x.cfg.shortio = 0; });
			tryit([](PhaseSpec &x) { x.cfg.fill = 0; }); tryit([](PhaseSpec &x) { x.cfg.gap = 0; }); tryit([](PhaseSpec &x) { x.cfg.reuse = 0; }); tryit([](PhaseSpec &x) { x.cfg.stackfill = 0; });
			tryit([](PhaseSpec &x) { x.cfg.blksize = 4096; }); tryit([](PhaseSpec &x) { x.cfg.pidbase = 2000; }); tryit([](PhaseSpec &x) { x.cfg.clock0 = 1700000000000000000ULL; });
			tryit([](PhaseSpec &x) { for (auto &c : x.cmds) { if (c.sk_out != SK_CLOSED) c.sk_out = SK_PIPE; if (c.sk_err != SK_CLOSED) c.sk_err = SK_PIPE; c.sk_in = -1; c.fdpad = 0; } });
			tryit([](PhaseSpec &x) { for (auto &c : x.cmds) c.sigign = 0; });
			tryit([](PhaseSpec &x) { for (auto &c : x.cmds) c.stray.clear(); });
			tryit([](PhaseSpec &x) { bool used = false; for (auto &f : x.faults) if (f.kind == F_EDIT) used = true; if (!used) x.edits.clear(); });
		}
		// source texts, by lines
		for (size_t i = 0; i < s.files.size(); i++) {
			if (s.files[i].type != T_FILE || s.files[i].data.size() < 2) continue;
			{ Scen t = s; t.files[i].data = "return 0\n"; if (s.files[i].path.find(".sk") != string::npos && s.files[i].data != t.files[i].data && still(t, cls)) { s = t; continue; } }
			vector<string> L; { string c; for (char ch : s.files[i].data) { c += ch; if (ch == '\n') { L.push_back(c); c.clear(); } } if (!c.empty()) L.push_back(c); }
			size_t chunk = L.size() / 2;
			while (chunk >= 1 && now() < min_deadline) {
				for (size_t k = 0; k < L.size() && now() < min_deadline;) {
					vector<string> M = L; size_t n = std::min(chunk, M.size() - k);
					M.erase(M.begin() + (long)k, M.begin() + (long)(k + n));
					Scen t = s; t.files[i].data.clear(); for (auto &l : M) t.files[i].data += l;
					if (!M.empty() && still(t, cls)) { s = t; L = M; } else k += n;
				}
				if (chunk == 1) break;
				chunk /= 2;
			}
		}
	}
}

static void outs(const string &t) { size_t k = 0; while (k < t.size()) { ssize_t w = write(1, t.data() + k, t.size() - k); if (w <= 0) break; k += (size_t)w; } }
// ------------------------------------------------------------------ replay
static int do_replay(const string &file, bool verbose) {
	string text, err; Scen s;
	if (!get_file(file, text) || !scen_read(text, s, err)) { say(2, "cannot read replay file %s: %s\n", file.c_str(), err.c_str()); return 2; }
	init_engine();
	string tr;
	Verdict v = judge(s, true, &tr);
	if (v.error) { say(2, "simulator problem: %s\n", v.detail.c_str()); return 2; }
	if (verbose) { size_t o = 0; while (o < tr.size()) { ssize_t r = write(1, tr.data() + o, tr.size() - o); if (r <= 0) break; o += (size_t)r; } for (auto &p : *PROBE) say(1, "probe %s %llu\n", p.first.c_str(), (unsigned long long)p.second); }
	if (v.bad) { say(1, "REPRODUCED property=%s class=%s hash=%016llx\n%s\n", s.prop.c_str(), v.cls.c_str(), (unsigned long long)v.hash, v.detail.c_str()); return 1; }
	say(1, "NOT-REPRODUCED property=%s hash=%016llx\n", s.prop.c_str(), (unsigned long long)v.hash);
	return 0;
}

// ------------------------------------------------------------------ search
struct Opt { string cmd, prop, out, replays, corpus, known; uint64_t seed = 1, count = 1000, first = 0; double seconds = 60; int jobs = 8; bool thorough = false, verbose = false, nomin = false, inproc = false; vector<string> rest; };

static string jesc(const string &s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else if (c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

struct Known { string prop, cls, sub; };
static vector<Known> load_known(const string &f) {
	vector<Known> v; string t; if (f.empty() || !get_file(f, t)) return v;
	std::istringstream is(t); string l;
	while (std::getline(is, l)) {
		if (l.compare(0, 6, "known:")) continue;
		Known k; size_t a = l.find("property="), b = l.find(" class="), c = l.find(" contains=");
		if (a == string::npos || b == string::npos || c == string::npos) continue;
		k.prop = l.substr(a + 9, b - a - 9); k.cls = l.substr(b + 7, c - b - 7); k.sub = l.substr(c + 10);
		v.push_back(k);
	}
	return v;
}

static uint64_t seed_of(const Opt &o, uint64_t i) { return o.seed * 1000003ULL + i; }

static string brief(const Scen &s) {
	string t = s.variant + ":";
	for (auto &p : s.phases) {
		for (auto &c : p.cmds) { t += " ["; if (c.kind == CMD_HOST) { for (auto &r : c.reqs) { t += "req:"; for (auto &a : r) t += " " + a; t += "; "; } } else for (auto &a : c.argv) t += " " + (a.size() > 40 ? a.substr(0, 40) + "..." : a); t += " ]"; }
		for (auto &f : p.faults) { t += string(" +") + kind_name[f.kind] + "@" + cls_name[f.cls] + "#" + std::to_string(f.nth) + "/p" + std::to_string(f.key); if (f.kind == F_ERR) t += string("=") + strerrorname_np(f.a); }
	}
	return t;
}

static bool confirmed(const string &f, const Opt &o, const string &cls) {
	string cmd = "unset SKULLSIM_STAGE2; timeout 120 /proc/" + std::to_string(getpid()) + "/exe replay '" + f + "' --corpus '" + o.corpus + "' 2>/dev/null", out;
	FILE *p = popen(cmd.c_str(), "r"); if (!p) return true;
	char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, p)) > 0) out.append(buf, n);
	pclose(p);
	return out.find("REPRODUCED property=" + o.prop + " class=" + cls + " ") != string::npos && out.find("NOT-REPRODUCED") == string::npos;
}
static int worker(const Opt &o, int id, const string &resfile) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	init_engine();
	vector<Known> known = load_known(o.known);
	double t0 = now();
	uint64_t n = 0, nontriv = 0, errors = 0, selfchk = 0, selfbad = 0;
	std::unordered_set<uint64_t> sigs, hashes;
	vector<string> samples, viol, unconf, knownhit;
	std::map<string, uint64_t> variants;
	string lasterr;
	for (;;) {
		if (SH->stop || now() - t0 > o.seconds) break;
		uint64_t i = __atomic_fetch_add(&SH->next, 1, __ATOMIC_SEQ_CST);
		if (i >= o.count) break;
		ref_clear();
		Scen s;
		if (!generate(o.prop, seed_of(o, o.first + i), o.thorough, s)) { lasterr = "generator"; errors++; continue; }
		Verdict v = judge(s);
		n++;
		if (v.error) { errors++; lasterr = v.detail; if (errors > 20) break; continue; }
		variants[s.variant]++;
		hashes.insert(v.hash);
		if (v.nontrivial) { nontriv++; sigs.insert(v.sig); }
		if (samples.size() < 3 && v.nontrivial) samples.push_back("seed " + std::to_string(s.seed) + " " + brief(s));
		if (i % 97 == 5) { // one seed, one execution
			Scen s2; generate(o.prop, seed_of(o, o.first + i), o.thorough, s2);
			Verdict w = judge(s2); selfchk++;
			if (w.hash != v.hash || scen_write(s) != scen_write(s2)) { selfbad++; lasterr = "seed " + std::to_string(s.seed) + " gave two different executions"; }
		}
		if (!v.bad) continue;
		bool kn = false;
		for (auto &k : known) if (k.prop == o.prop && k.cls == v.cls && v.detail.find(k.sub) != string::npos) { kn = true; if (std::find(knownhit.begin(), knownhit.end(), k.sub) == knownhit.end()) knownhit.push_back(k.sub); }
		if (kn) { probe("known-finding"); continue; }
		// first one to find something reports it
		if (__atomic_fetch_add(&SH->found, 1, __ATOMIC_SEQ_CST) > 0 && !o.verbose) continue;
		Scen full = s;
		if (!o.nomin) minimise(s, v.cls, o.thorough ? 120 : 35);
		string tr; Verdict a = judge(s, true, &tr), b = judge(s);
		if (!a.bad || a.cls != v.cls || a.hash != b.hash) { s = full; a = judge(s, true, &tr); }
		s.cls = a.cls; s.detail = a.detail;
		string f = o.replays + "/" + o.prop + "-" + std::to_string(s.seed) + ".replay", g = o.replays + "/" + o.prop + "-" + std::to_string(s.seed) + ".full.replay";
		put_file(f, scen_write(s) + "# " + std::to_string(min_tests) + " runs were made to minimise this\n# trace of the violating execution\n" + tr);
		put_file(g, scen_write(full));
		if (!o.verbose) {
			// only what a fresh process repeats from the file is reported (memory errors inside LLVM's own heap may not)
			if (!confirmed(f, o, s.cls) && !confirmed(g, o, s.cls)) {
				unconf.push_back(v.cls + "\t" + f + "\t" + g + "\t" + s.detail);
				if (unconf.size() >= 12) break;
				__atomic_store_n(&SH->found, 0, __ATOMIC_SEQ_CST);
				continue;
			}
			SH->stop = 1;
		}
		viol.push_back(s.cls + "\t" + f + "\t" + g + "\t" + s.detail);
		if (o.verbose) { __atomic_store_n(&SH->found, 0, __ATOMIC_SEQ_CST); say(1, "%s seed %llu %s: %s\n   %s\n", v.cls.c_str(), (unsigned long long)s.seed, brief(s).substr(0, 300).c_str(), s.detail.substr(0, 400).c_str(), f.c_str()); continue; }
		break;
	}
	std::ostringstream r;
	r << "n " << n << "\nnontriv " << nontriv << "\nerrors " << errors << "\nselfchk " << selfchk << "\nselfbad " << selfbad << "\nwall " << now() - t0 << "\n";
	r << "runs " << ST->runs << "\nrefs " << ST->refs << "\nsys " << ST->sys << "\nalloc " << ST->alloc << "\nswitches " << ST->switches << "\nsimtime " << ST->simtime_ns << "\nshortio " << ST->shortio << "\n";
	for (int a = 0; a < NKIND; a++) for (int b = 0; b < NCLS; b++) if (ST->fired[a][b]) r << "fired " << kind_name[a] << "@" << cls_name[b] << " " << ST->fired[a][b] << "\n";
	for (auto &p : *PROBE) r << "probe " << p.second << " " << p.first << "\n";
	for (auto &p : variants) r << "variant " << p.second << " " << p.first << "\n";
	for (auto &s : samples) r << "sample " << jesc(s) << "\n";
	if (viol.empty()) viol = unconf;
	for (auto &s : viol) { string q = s; for (auto &c : q) if (c == '\n') c = ' '; r << "violation " << q << "\n"; }
	for (auto &s : knownhit) r << "known " << s << "\n";
	if (!lasterr.empty()) r << "lasterr " << jesc(lasterr) << "\n";
	for (auto s : sigs) r << "sig " << s << "\n";
	for (auto s : hashes) r << "hash " << s << "\n";
	put_file(resfile, r.str());
	(void)id;
	return 0;
}

static int do_check(Opt &o, const vector<string> &) {
	SH = (Shared *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	vector<pid_t> pid;
	for (int i = 0; i < o.jobs; i++) {
		string rf = o.out + "." + std::to_string(i); unlink(rf.c_str());
		if (o.inproc) return worker(o, i, rf);   // for a debugger
		pid_t p = fork();
		if (p == 0) { int r = worker(o, i, rf); _exit(r); }
		pid.push_back(p);
	}
	int bad = 0;
	for (auto p : pid) { int st; if (waitpid(p, &st, 0) != p || st) { bad++; fprintf(stderr, "worker ended with status 0x%x\n", st); } }
	return bad ? 2 : 0;
}

int main(int argc, char **argv) {
	// second stage: no randomised addresses, fixed arguments and environment
	if (!getenv("SKULLSIM_STAGE2")) {
		string all; for (int i = 1; i < argc; i++) { all += argv[i]; all += '\0'; }
		int fd = (int)syscall(SYS_memfd_create, "args", 0);
		if (fd < 0) return 2;
		if (write(fd, all.data(), all.size()) != (ssize_t)all.size()) return 2;
		if (dup2(fd, 100) < 0) return 2;
		close(fd); lseek(100, 0, SEEK_SET);
		personality(ADDR_NO_RANDOMIZE);
		char *av[] = { (char *)"skullsim", NULL }, *ev[] = { (char *)"SKULLSIM_STAGE2=1", NULL };
		execve("/proc/self/exe", av, ev);
		return 2;
	}
	Opt o;
	{
		string all; char b[4096]; ssize_t r; while ((r = read(100, b, sizeof b)) > 0) all.append(b, (size_t)r);
		close(100);
		vector<string> a; size_t i = 0; while (i < all.size()) { string x = all.c_str() + i; i += x.size() + 1; a.push_back(x); }
		for (size_t k = 0; k < a.size(); k++) {
			auto val = [&]() { return k + 1 < a.size() ? a[++k] : string(); };
			if (a[k] == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
			else if (a[k] == "--count") o.count = strtoull(val().c_str(), 0, 10);
			else if (a[k] == "--first") o.first = strtoull(val().c_str(), 0, 10);
			else if (a[k] == "--seconds") o.seconds = atof(val().c_str());
			else if (a[k] == "--jobs") o.jobs = atoi(val().c_str());
			else if (a[k] == "--out") o.out = val();
			else if (a[k] == "--replays") o.replays = val();
			else if (a[k] == "--corpus") o.corpus = val();
			else if (a[k] == "--known") o.known = val();
			else if (a[k] == "--thorough") o.thorough = true;
			else if (a[k] == "-v") o.verbose = true;
			else if (a[k] == "--nomin") o.nomin = true;
			else if (a[k] == "--inproc") o.inproc = true;
			else if (o.cmd.empty()) o.cmd = a[k];
			else o.rest.push_back(a[k]);
		}
	}
	signal(SIGPIPE, SIG_IGN);
	load_corpus(o.corpus.c_str());
	arena_reserve();
	warm_llvm();
	if (o.cmd == "check") { o.prop = o.rest.empty() ? "" : o.rest[0]; return do_check(o, o.rest); }
	if (o.cmd == "replay") return do_replay(o.rest[0], o.verbose);
	if (o.cmd == "one" || o.cmd == "dump") {
		init_engine();
		Scen s; uint64_t sd = strtoull(o.rest[1].c_str(), 0, 10);
		if (!generate(o.rest[0], sd, o.thorough, s)) return 2;
		if (o.cmd == "dump") { outs(scen_write(s)); }
		string tr; Verdict v = judge(s, o.verbose, &tr);
		say(1, "%s\n", brief(s).c_str());
		if (o.verbose) { ssize_t r = write(1, tr.data(), tr.size()); (void)r; }
		say(1, "%s %s hash %016llx %s\n", v.error ? "ERROR" : v.bad ? "BAD" : "ok", v.cls.c_str(), (unsigned long long)v.hash, v.detail.c_str());
		for (auto &p : *PROBE) say(1, "probe %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
		return v.bad;
	}
	if (o.cmd == "text") { outs(gen_sample(strtoull(o.rest[0].c_str(), 0, 10))); return 0; }
	say(2, "usage: skullsim check PROP | replay FILE | one PROP SEED\n");
	return 2;
}
