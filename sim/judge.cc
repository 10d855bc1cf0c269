// Oracles.  Each takes the scenario and the recorded executions and decides
// the property; the reference is the same real code run alone without faults,
// plus the small model of documented outputs in run.cc.
#include "scen.h"
#include <algorithm>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>

static string num(long long n) { return std::to_string(n); }
static string clip(const string &s, size_t n = 160) {
	string o; for (char c : s) { if (o.size() >= n) { o += "..."; break; } if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += '?'; else o += c; }
	return o;
}

struct Bad { string cls, detail; };
[[noreturn]] static void bad(const string &c, const string &d) { throw Bad{ c, d }; }
struct Skip { const char *why; };
[[noreturn]] static void skip(const char *w) { throw Skip{ w }; }

static string status_str(const Outcome &o, int c) {
	const CmdOut &m = o.cmds[(size_t)c];
	if (!m.exited) return "not ended";
	return (m.status & 0x10000) ? "exit " + num(m.status & 0xff) : "signal " + num(m.status);
}
static uint32_t fk(const Outcome &o, int kind) { uint32_t n = 0; for (int c = 0; c < NCLS; c++) n += o.firedk[kind][c]; return n; }
static uint32_t fc(const Outcome &o, int cls) { return o.firedk[F_ERR][cls]; }
// anything beyond legal short transfers, delays and scheduling happened
static bool disturbed(const Outcome &o) {
	for (int k : { F_ERR, F_EOF, F_KILL, F_KILL_AFTER, F_POWER, F_EDIT, F_DISK, F_NULL, F_CCEXIT, F_CCSIG }) if (fk(o, k)) return true;
	return false;
}
static bool killed(const Outcome &o) { return fk(o, F_KILL) || fk(o, F_KILL_AFTER) || fk(o, F_POWER); }
static const ProcOut &top(const Outcome &o, int c) { const ProcOut *p = o.proc(c + 1); static ProcOut z; return p ? *p : z; }
static bool crashed(const Outcome &o, int c) { return o.cmds[(size_t)c].crashed != 0; }
static bool ended(const Outcome &o) { return !o.deadlock && !o.livelock && !o.hang; }

static void no_crash(const Outcome &o, int c, const char *when) {
	const CmdOut &m = o.cmds[(size_t)c];
	if (m.crashed) { char b[64]; snprintf(b, sizeof b, " at %llx", (unsigned long long)m.crash_rip); bad("crash", string("compiler died of signal ") + num(m.crashed) + b + " " + when + (m.heap_err ? " (heap misuse)" : "")); }
	if (m.heap_err) bad("heap-misuse", string("heap misuse code ") + num(m.heap_err) + " " + when);
}
static void must_end(const Outcome &o) {
	if (o.deadlock) bad("deadlock", "a process waits for something that cannot happen");
	if (o.livelock) bad("livelock", "system-call budget exhausted");
	if (o.hang) bad("hang", "runs on without making any system call");
}
static bool sigpipe_death(const Outcome &o, int c) { return o.cmds[(size_t)c].status == SIGPIPE; }

static bool same_file(const Fs &a, const Fs &b, const string &p, string &why) {
	auto x = a.find(p), y = b.find(p);
	bool hx = x != a.end(), hy = y != b.end();
	if (hx != hy) { why = p + (hx ? " exists but should not" : " is missing"); return false; }
	if (!hx) return true;
	if (x->second.type != y->second.type) { why = p + " has the wrong type"; return false; }
	if (x->second.data != y->second.data) {
		size_t k = 0, n = std::min(x->second.data.size(), y->second.data.size());
		while (k < n && x->second.data[k] == y->second.data[k]) k++;
		why = p + " differs: " + num((long long)x->second.data.size()) + " bytes instead of " + num((long long)y->second.data.size()) + ", first difference at " + num((long long)k);
		return false;
	}
	if ((x->second.mode & 0111) != (y->second.mode & 0111)) { why = p + " has mode " + num(x->second.mode) + " instead of " + num(y->second.mode); return false; }
	return true;
}
static bool same_fs(const Fs &a, const Fs &b, string &why) {
	for (auto &x : a) { if (!same_file(a, b, x.first, why)) return false; }
	for (auto &x : b) if (!a.count(x.first)) { why = x.first + " is missing"; return false; }
	return true;
}
static bool same_text(const char *what, const string &a, const string &b, string &why) {
	if (a == b) return true;
	size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
	size_t f = k > 40 ? k - 40 : 0;
	why = string(what) + " differs at byte " + num((long long)k) + ": \"" + clip(a.substr(f)) + "\" instead of \"" + clip(b.substr(f)) + "\"";
	return false;
}
// status, messages, stdout and everything on disk
static bool equal_all(const Outcome &o, int c, const Outcome &r, string &why, bool fs = true) {
	if (o.cmds[(size_t)c].status != r.cmds[0].status) { why = status_str(o, c) + " instead of " + status_str(r, 0); return false; }
	if (!same_text("stderr", o.cmds[(size_t)c].err, r.cmds[0].err, why)) return false;
	if (!same_text("stdout", o.cmds[(size_t)c].out, r.cmds[0].out, why)) return false;
	return !fs || same_fs(o.fs, r.fs, why);
}
// the requested output only
static bool equal_output(const Outcome &o, int c, const Outcome &r, const Model &m, string &why) {
	if (!same_text("stdout", o.cmds[(size_t)c].out, r.cmds[0].out, why)) return false;
	if (m.to_stdout || m.out_abs.empty()) return true;
	return same_file(o.fs, r.fs, m.out_abs, why);
}
static bool no_excuse;
static const Outcome &reference(const vector<FileSpec> &f, const CmdSpec &c) {
	const Outcome &r = ref_run(f, c);
	if (!r.ok) throw string(r.problem);
	if (r.unsupported) skip("ref-unsupported-syscall");
	if (!ended(r)) { if (no_excuse) bad("never-ends", "even the plain run, alone and without faults, never ends"); skip("ref-never-ends"); }
	return r;
}
static const FileSpec *file_at(const vector<FileSpec> &fs, const string &p) { const FileSpec *r = nullptr; for (auto &f : fs) if (f.path == p) r = &f; return r; }

static bool ends_with(const string &s, const char *t) { size_t n = strlen(t); return s.size() >= n && !s.compare(s.size() - n, n, t); }
// is this obviously a truncated or empty product
static bool plausible(const string &d, Mode mo, string &why) {
	switch (mo) {
		case MO_OBJ: {
			if (d.size() < 64 || d.compare(0, 4, "\177ELF")) { why = "not an ELF object"; return false; }
			uint64_t shoff; uint16_t es, n; memcpy(&shoff, d.data() + 40, 8); memcpy(&es, d.data() + 58, 2); memcpy(&n, d.data() + 60, 2);
			if (shoff + (uint64_t)es * n > d.size()) { why = "ELF object is cut off"; return false; }
			return true;
		}
		case MO_LINK: if (d.compare(0, 7, "SIMEXE\n")) { why = "the linker's output is not there"; return false; } return true;
		case MO_C: if (!ends_with(d, "}\n") || d.compare(0, 8, "#include")) { why = "C text has no proper beginning or end"; return false; } return true;
		case MO_LL: if (!ends_with(d, "\n") || d.compare(0, 9, "; ModuleI")) { why = "LLVM text has no proper beginning or end"; return false; } return true;
		case MO_ASM: if (!ends_with(d, "\n") || d.find(".text") == string::npos) { why = "assembly has no proper beginning or end"; return false; } return true;
		default: return true;
	}
}

// a program made of equal units (gen_counted): every unit, the long name and the long string are in the output
static size_t occurs(const string &d, const string &w) { size_t n = 0, p = 0; while ((p = d.find(w, p)) != string::npos) { n++; p += w.size(); } return n; }
static void counted(const string &text, const string &d, Mode mo) {
	int n; size_t L, M;
	if (sscanf(text.c_str(), "# counted %d %zu %zu", &n, &L, &M) != 3) return;
	bool code = mo == MO_LL || mo == MO_C;
	size_t f0 = 0, v0 = 0;
	for (int k = 0; k < n; k++) {
		char id[16]; snprintf(id, sizeof id, "_%05d_q", k);
		size_t f = occurs(d, string("f") + id), v = occurs(d, string("v") + id), st = occurs(d, "str" + num(3000003 + k));
		if (!k) { f0 = f; v0 = v; }
		if ((!f && code) || !st || (code && (!occurs(d, num(1000003 + k)) || !occurs(d, num(2000003 + k))))) bad("incomplete-output", "exit 0, but part " + num(k + 1) + " of " + num(n) + " equal parts of the program is missing in the output");
		if (code && (f != f0 || v != v0)) bad("incomplete-output", "exit 0, but parts 1 and " + num(k + 1) + " of " + num(n) + " equal parts of the program appear " + num((long long)f0) + " and " + num((long long)f) + " times in the output");
	}
	if (code && !occurs(d, "l_" + string(L, 'a') + "_q")) bad("incomplete-output", "exit 0, but a name of " + num((long long)L + 4) + " characters is not in the output");
	size_t at = d.find(string(M, 'b'));   // a run of exactly that length; the name of a directory may hold another one
	while (at != string::npos && d[at + M] == 'b') { size_t e = d.find_first_not_of('b', at); at = e == string::npos ? e : d.find(string(M, 'b'), e); }
	if (M > 12 && at == string::npos) bad("incomplete-output", "exit 0, but a string of " + num((long long)M) + " characters is not in the output as it is");
	probe("counted-output");
}

// ------------------------------------------------------------------ context
struct Ctx {
	const Scen &s; vector<Outcome> o; bool trace; string tr; uint64_t hash = FNV0, sig = FNV0; bool nontriv = false;
	Ctx(const Scen &x, bool t) : s(x), trace(t) {}
	const Outcome &run(size_t ph) {
		o.push_back(run_phase(s, ph, ph == 0, trace));
		Outcome &x = o.back();
		if (trace) tr += (s.phases.size() > 1 ? "# ---- phase " + num((long long)ph + 1) + "\n" : "") + x.trace;
		if (last_picks) last_picks->push_back(x.picklog);
		if (!x.ok) throw string(x.problem);
		auto mix = [&](uint64_t v) { hash = fnv(&v, 8, hash); };
		mix(x.hash); mix(x.steps); mix(x.nsys);
		for (auto &c : x.cmds) { mix((uint64_t)c.status); hash = fnv(c.out.data(), c.out.size(), hash); hash = fnv(c.err.data(), c.err.size(), hash); }
		for (auto &f : x.fs) { hash = fnv(f.first.data(), f.first.size(), hash); hash = fnv(f.second.data.data(), f.second.data.size(), hash); }
		if (x.unsupported) { probe("unsupported-syscall"); skip("unsupported-syscall"); }
		if (x.total_fired() || fk(x, F_DISK) || x.nswitch || x.shortio) nontriv = true;
		// interleaving/fault signature: who ran when, which fault took effect where
		auto sm = [&](uint64_t v) { sig = fnv(&v, 8, sig); };
		for (auto &p : x.picklog) { sm(p.first); sm((uint64_t)p.second); }
		for (auto &f : x.flog) { sm(f.step); sm((uint64_t)f.key); const Fault &q = s.phases[ph].faults[(size_t)f.fault]; sm(q.kind); sm(q.cls); sm((uint64_t)q.a); }
		sm(x.steps); for (auto &c : x.cmds) sm((uint64_t)c.status);
		return x;
	}
};

// footprint: what was touched, and what is there afterwards
static void footprint(const Scen &s, const Outcome &o, const vector<Model> &ms, const Fs &before) {
	std::set<string> all;
	for (auto &m : ms) all.insert(m.allowed.begin(), m.allowed.end());
	static const char *opn[] = { "created", "truncated", "written to", "deleted", "renamed", "chmod", "mkdir", "rmdir", "link", "changed" };
	for (auto &m : o.muts) {
		if (m.key == -2) continue;
		const ProcOut *p = o.proc(m.key);
		int c = p ? p->cmd : 0;
		const std::set<string> &al = c < (int)ms.size() ? ms[(size_t)c].allowed : all;
		for (const string *q : { &m.path, &m.path2 }) if (!q->empty() && !al.count(*q)) bad("foreign-file", *q + " was " + opn[m.op] + " by " + (m.stub ? "the linker it started" : "the compiler"));
	}
	for (auto &x : before) if (!all.count(x.first)) {
		auto y = o.fs.find(x.first);
		if (y == o.fs.end()) bad("foreign-file", x.first + " is gone");
		if (!(y->second == x.second)) bad("foreign-file", x.first + " was changed");
	}
	for (auto &y : o.fs) if (!all.count(y.first) && !before.count(y.first)) bad("foreign-file", y.first + " appeared");
	(void)s;
}

// ---------------------------------------------------------------------- C01
static bool unwritable(const Scen &s, const Model &m) {
	if (m.bad || m.out_abs.empty() || m.to_stdout) return false;
	if (m.out_abs == "/dev/full") return m.mode != MO_LINK;
	const FileSpec *f = file_at(s.files, m.out_abs);
	if (f && f->type == T_DIR) return true;
	if (f && !(f->mode & 0200) && m.mode != MO_LINK) return true;
	auto dirbad = [&](const string &p) {
		if (p.substr(p.rfind('/') + 1).size() > 255) return true;
		string d = dirname_of(p);
		const FileSpec *q = file_at(s.files, d);
		if (q && q->type == T_DIR && !(q->mode & 0200) && !file_at(s.files, p)) return true;
		return d.find("/no/such/dir") != string::npos;
	};
	if (dirbad(m.out_abs)) return true;
	return m.mode == MO_LINK && dirbad(m.obj_abs);
}

static void j_c01(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	Model m = model_of(c);
	const FileSpec *src = file_at(s.files, m.src_abs);
	const Outcome &r = reference(s.files, c);
	bool rok = r.exit0(0);
	const Outcome &o = x.run(0);
	must_end(o);
	no_crash(o, 0, disturbed(o) ? "after a failed call" : "without any fault");
	if (src && src->kind == PK_VALID && crashed(r, 0)) bad("crash", "valid program crashes the compiler");
	bool empty = src && src->data.empty();
	string why;
	if (c.sk_out == SK_CLOSED && m.to_stdout && rok && !r.cmds[0].out.empty()) {
		if (o.exit0(0)) bad("false-success", "exit 0 although stdout is closed and the output belongs there");
		if (o.cmds[0].err.empty()) bad("silent-failure", status_str(o, 0) + " without any message");
		probe("c01.no-stdout");
	}
	else if (!disturbed(o)) {
		if (unwritable(s, m) && !rok && !o.exit0(0)) {
			// which of several writes meets the failure decides the wording
			if (o.cmds[0].err.empty()) bad("silent-failure", status_str(o, 0) + " without any message");
			if (status_str(o, 0) != status_str(r, 0)) bad("benign-difference", "without any failing call: " + status_str(o, 0) + " instead of " + status_str(r, 0));
		}
		else if (!equal_all(o, 0, r, why)) bad("benign-difference", "without any failing call the result differs from the plain run: " + why);
	}
	if (o.exit0(0)) {
		if (!rok) bad("false-success", "exit 0, but the plain run ends with " + status_str(r, 0) + ": " + clip(r.cmds[0].err));
		if (!equal_output(o, 0, r, m, why)) bad("incomplete-output", "exit 0, but " + why);
		if (!empty) {
			if (unwritable(s, m)) bad("false-success", "exit 0 although the output place cannot be written: " + m.out_abs);
			string d;
			if (m.to_stdout) d = o.cmds[0].out;
			else if (m.out_abs.compare(0, 5, "/dev/")) { auto it = o.fs.find(m.out_abs); if (it == o.fs.end()) bad("missing-output", "exit 0, but there is no " + m.out_abs); d = it->second.data; if (m.mode == MO_LINK && !(it->second.mode & 0100)) bad("missing-output", m.out_abs + " is not executable"); }
			else return;
			if (!plausible(d, m.mode, why)) bad("incomplete-output", "exit 0, but " + why);
			probe("c01.success-checked");
			if (src) counted(src->data, d, m.mode);
			// the same text through the other channel
			if ((m.mode == MO_C || m.mode == MO_LL || m.mode == MO_ASM) && s.seed % 6 == 0) {
				CmdSpec t = c; string twin = "/tmp/twin";
				bool done = false;
				for (size_t i = 1; i + 1 < t.argv.size(); i++) { if (t.argv[i] == "--") break; if (t.argv[i] == "-o") { t.argv[i + 1] = m.to_stdout ? twin : "-"; done = true; break; } }
				if (!done) t.argv.insert(t.argv.begin() + 1, { "-o", m.to_stdout ? twin : "-" });
				const Outcome &q = reference(s.files, t);
				string e; if (m.to_stdout) { auto it = q.fs.find(twin); if (it != q.fs.end()) e = it->second.data; } else e = q.cmds[0].out;
				if (!q.exit0(0) || !same_text("text written to a file and to stdout", d, e, why)) bad("channel-difference", why + " (" + status_str(q, 0) + ")");
				probe("c01.twin-channel");
			}
		}
	}
	else {
		if (sigpipe_death(o, 0)) { probe("c01.sigpipe"); return; }
		if (o.cmds[0].err.empty() && !fc(o, C_ERR)) bad("silent-failure", status_str(o, 0) + " without any message");
		if (disturbed(o)) probe("c01.failure-diagnosed");
	}
}

// ---------------------------------------------------------------------- C02
static void j_c02(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	Model m = model_of(c);
	const FileSpec *src = file_at(s.files, m.src_abs);
	const Outcome &o = x.run(0);
	must_end(o);
	no_crash(o, 0, disturbed(o) ? "when reading failed or the file changed" : "without any fault");
	bool unreadable = !src || src->type == T_DIR || !(src->mode & 0400);
	if (!o.exit0(0) && o.cmds[0].err.empty()) bad("silent-failure", status_str(o, 0) + " without any message");
	if (unreadable) {
		if (o.exit0(0)) bad("unreadable-accepted", string("exit 0 although the source ") + (!src ? "does not exist" : src->type == T_DIR ? "is a directory" : "cannot be read") + ": " + clip(o.cmds[0].err));
		return;
	}
	string why;
	if (s.variant == "unreadable-text") {
		if (o.exit0(0)) bad("unreadable-accepted", "exit 0 although the source holds a NUL byte or bytes that are no UTF-8 text");
		if (o.cmds[0].err.find("file is empty") != string::npos) bad("nonempty-reported-empty", clip(o.cmds[0].err));
		probe("c02.unreadable-text");
	}
	if (!disturbed(o)) {
		const Outcome &r = reference(s.files, c);
		if (o.exit0(0) && (m.to_stdout || o.fs.count(m.out_abs))) counted(src->data, m.to_stdout ? o.cmds[0].out : o.fs.find(m.out_abs)->second.data, m.mode);
		if (!o.exit0(0) && !src->data.compare(0, 10, "# counted ") && s.variant != "unreadable-text" && !unwritable(s, m)) bad("valid-refused", status_str(o, 0) + ": " + clip(o.cmds[0].err));
		if (src->data.empty() && !m.quiet && r.cmds[0].err.find("empty") == string::npos) bad("empty-not-reported", "an empty source is not reported as empty: " + clip(r.cmds[0].err));
		if (!src->data.empty() && r.cmds[0].err.find("file is empty") != string::npos && src->kind == PK_VALID && src->data.find_first_not_of(" \t\r\n") != string::npos && src->data[0] != '#') bad("nonempty-reported-empty", clip(r.cmds[0].err));
		if (!equal_all(o, 0, r, why)) bad("benign-difference", "only short reads happened, yet " + why);
		static const string remark = "# " + string(70, 'r') + "\n";
		size_t at = 0; while (!src->data.compare(at, remark.size(), remark)) at += remark.size();
		if (at && at < src->data.size() && s.variant != "unreadable-text" && !unwritable(s, m)) {   // what is left without the remarks is the same program
			vector<FileSpec> t = s.files; for (auto &f : t) if (f.path == m.src_abs) f.data.erase(0, at);
			const Outcome &u = reference(t, c);
			if (u.exit0(0) != o.exit0(0)) bad("size-matters", "with " + num((long long)at) + " bytes of remarks in front: " + status_str(o, 0) + ", without them: " + status_str(u, 0) + ": " + clip(o.exit0(0) ? u.cmds[0].err : o.cmds[0].err));
			if (m.mode == MO_LL && !m.debug && o.exit0(0)) { if (m.to_stdout ? !same_text("stdout", o.cmds[0].out, u.cmds[0].out, why) : !same_file(o.fs, u.fs, m.out_abs, why)) bad("size-matters", "with remarks in front of the program " + why); }
			probe("c02.remarks-do-not-matter");
		}
		return;
	}
	if (!o.exit0(0)) { probe("c02.refused"); return; }
	// which texts may have been compiled
	vector<string> cand; cand.push_back(src->data);
	string cur = src->data;
	size_t nver = 1;
	bool edited = fk(o, F_EDIT) > 0;
	for (auto &fl : o.flog) {
		const Fault &f = s.phases[0].faults[(size_t)fl.fault];
		if (f.kind != F_EDIT) continue;
		const EditSpec &e = s.phases[0].edits[(size_t)f.a];
		switch (e.op) {
			case E_TRUNC: if (e.len < cur.size()) cur.resize(e.len); break;
			case E_WRITE: case E_REPLACE: cur = e.data; break;
			case E_APPEND: cur += e.data; break;
			default: continue;
		}
		cand.push_back(cur); nver++;
	}
	if (edited || fk(o, F_EOF)) cand.push_back("");
	if (edited || fk(o, F_EOF)) for (size_t k = 0; k < o.delivered.size(); k++) {
		const string &d = o.delivered[k];
		cand.push_back(d);
		for (uint64_t e : o.eofat[k]) if (e < d.size()) cand.push_back(d.substr(0, (size_t)e));
		for (size_t i = 0; i < nver; i++) if (cand[i].size() < d.size()) cand.push_back(d.substr(0, cand[i].size()));
	}
	string first;
	for (auto &t : cand) {
		vector<FileSpec> fs = s.files;
		for (auto &f : fs) if (f.path == m.src_abs) { f.data = t; f.mode = 0644; }
		const Outcome &r = reference(fs, c);
		if (r.exit0(0) && same_text("stderr", o.cmds[0].err, r.cmds[0].err, why) && equal_output(o, 0, r, m, why)) { probe("c02.accepted-known-text"); return; }
		if (first.empty()) first = r.exit0(0) ? why : "the plain run ends with " + status_str(r, 0);
	}
	bad("unknown-text", string("exit 0, but the result belongs to no text that was ever in the file") + (edited ? " or was delivered by it" : "") + " (for the original text: " + first + "; messages \"" + clip(o.cmds[0].err) + "\")");
}

// ---------------------------------------------------------------------- C03
static void j_c03(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	Model m = model_of(c);
	const FileSpec *src = file_at(s.files, m.src_abs);
	const Outcome &r = reference(s.files, c);
	bool rejected = src && src->kind == PK_INVALID && r.cmds[0].exited && !r.exit0(0) && !crashed(r, 0);
	Fs before = initial_fs(s.files);
	const Outcome &o = x.run(0);
	if (rejected) { m.allowed.clear(); probe("c03.rejected-program"); }
	footprint(s, o, { m }, before);
	if (killed(o)) probe("c03.killed");
}

// ---------------------------------------------------------------------- C04
static void j_c04(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	Model m = model_of(c);
	const Outcome &r = reference(s.files, c);
	if (crashed(r, 0)) skip("reference crashes");
	Fs before = initial_fs(s.files);
	const Outcome &o = x.run(0);
	must_end(o);
	no_crash(o, 0, fk(o, F_NULL) ? "after an allocation failed" : "without any fault");
	for (auto &p : o.procs) if (p.crashed && !p.stub) bad("crash", "a child of the compiler died of signal " + num(p.crashed));
	string why;
	if (o.exit0(0)) {
		if (!r.exit0(0)) bad("false-success", "exit 0, but the plain run ends with " + status_str(r, 0) + ": " + clip(r.cmds[0].err));
		if (!equal_all(o, 0, r, why)) bad("different-result", "exit 0 after a failed allocation, but " + why);
		if (fk(o, F_NULL)) probe("c04.survived");
	}
	else {
		if (o.cmds[0].err.empty()) bad("silent-failure", status_str(o, 0) + " without any message");
		if (!fk(o, F_NULL) && !equal_all(o, 0, r, why)) bad("different-result", why);
		if (fk(o, F_NULL)) probe("c04.diagnosed");
	}
	footprint(s, o, { m }, before);
}

// ---------------------------------------------------------------------- C05
static void j_c05(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	bool host = c.kind == CMD_HOST;
	string file; if (host) { for (size_t i = 0; i < c.reqs[0].size(); i++) { const string &a = c.reqs[0][i]; if (a == "-o" || a == "--") { i++; continue; } if (a[0] != '-') file = a; } }
	Model m = host ? model_req(c.reqs[0], file, c.cwd) : model_of(c);
	const FileSpec *src = file_at(s.files, m.src_abs);
	vector<FileSpec> healthy; for (auto &f : s.files) if (f.path != "/bin/sh" && f.path != "/usr/bin/sh" && f.path != "/bin/cc" && f.path != "/usr/bin/cc") healthy.push_back(f);
	const Outcome &r = reference(healthy, c);
	if (crashed(r, 0)) skip("reference crashes");
	bool r0 = host ? r.cmds[0].reqs[0].done && r.cmds[0].reqs[0].ret == 0 : r.exit0(0);
	uint64_t objhash = 0; bool haveobj = false;
	if (r.cc.size() == 1 && !r.cc[0].in.empty()) { objhash = r.cc[0].h0[0]; haveobj = true; }
	const Outcome &o = x.run(0);
	must_end(o);
	no_crash(o, 0, "around the link step");
	bool isempty = src && src->data.empty();
	bool done = host ? o.cmds[0].reqs[0].done : o.cmds[0].exited;
	bool ok = host ? done && o.cmds[0].reqs[0].ret == 0 : o.exit0(0);
	// children: the linker is the one that was executed or the first that is not a stray
	int nstray = (int)c.stray.size();
	vector<const ProcOut *> kids;
	for (auto &p : o.procs) if (p.key >= KEYMUL && !(host && p.key / KEYMUL == 1 && p.key % KEYMUL <= nstray)) kids.push_back(&p);
	vector<const CcOut *> cc; for (auto &k : o.cc) cc.push_back(&k);
	if (cc.size() > 1) bad("linker-twice", "the C compiler was started " + num((long long)cc.size()) + " times");
	for (auto *k : kids) {
		if (k->stub) continue;
		// forked, never executed anything
		if (k->crashed) bad("copy-continues", "a forked copy of the compiler died of signal " + num(k->crashed));
		if (k->exited && k->status == 0x10000 && !killed(o)) bad("copy-continues", "a forked copy that could not execute the linker ends with status 0");
		if (k->cnt[C_FORK]) bad("copy-continues", "a forked copy of the compiler forks again");
		for (auto &u : o.muts) if (u.key == k->key) bad("copy-continues", "a forked copy of the compiler goes on and touches " + u.path);
	}
	// whatever becomes of it, a linker is asked for this executable, made of this object file
	auto asked = [&](const CcOut &k, const char *when) {
		if (k.in.empty() && k.out.empty()) return;
		bool given = false; for (auto &i : k.in) if (abspath("/", i) == m.obj_abs) given = true;
		if (!given) bad("wrong-link", string(when) + "the linker was not given the object file " + m.obj_abs);
		if (abspath("/", k.out) != m.out_abs) bad("wrong-link", string(when) + "the linker was told to write " + k.out + " instead of " + m.out_abs);
	};
	for (auto &k : r.cc) {
		if (k.in.empty() && k.out.empty() && !k.not_cc) bad("wrong-link", "without any fault the command for the linker is none: " + clip(k.cmdline));
		asked(k, "without any fault ");
		if (r.cc.size() == 1 && k.ended && k.status == 0x10000 && !r0) bad("false-failure", "without any fault the linker ended well, but the compile failed: " + clip(r.cmds[0].err));
		probe("c05.plain-link-checked");
	}
	for (auto *k : cc) {
		asked(*k, "");
		if (k->not_cc) bad("not-the-linker", "something other than the C compiler was run: " + clip(k->cmdline));
		if (haveobj && !k->in.empty() && (k->h0[0] != objhash)) bad("object-incomplete", "the linker was started on an object file that is not the complete one: " + k->in[0]);
		if (k->ended && !k->in.empty() && k->h0[0] != k->h1[0] && !fc(o, C_UNLINK)) bad("object-changed", "the object file changed or vanished before the linker had ended: " + k->in[0]);
	}
	if (ok && !isempty) {
		if (cc.empty()) bad("false-success", "success, but the linker was never started");
		const CcOut &k = *cc[0];
		// every word that was meant for it (object file and executable: above)
		auto xe = o.fs.find(m.out_abs);
		if (xe != o.fs.end() && xe->second.data.compare(0, 7, "SIMEXE\n") == 0) {
			string w; for (char ch : m.extra + " ") { if (ch != ' ') { w += ch; continue; } if (!w.empty() && m.extra.find("-o ") == string::npos && xe->second.data.find("\narg " + w + "\n") == string::npos) bad("wrong-link", "success, but the linker did not get the argument " + w); w.clear(); }
			if (!m.extra.empty()) probe("c05.linker-arguments-checked");
		}
		if (!k.ended) bad("false-success", "success, but the linker has not ended");
		if (k.status != 0x10000) bad("false-success", string("success, but the linker ended with ") + ((k.status & 0x10000) ? "exit status " : "signal ") + num(k.status & 0xff));
		uint32_t e = host ? o.cmds[0].reqs[0].step1 : o.cmds[0].end_step;
		if (k.step_end > e) bad("not-waited", "the compiler ended before the linker did");
		const ProcOut *p = o.proc(k.key);
		if (p && !p->reaped) bad("not-learned", "success, but the end of the linker was never learned from the system");
		string why;
		if (!r0) bad("false-success", "success, but the plain run fails");
		if (!same_file(o.fs, r.fs, m.out_abs, why)) bad("wrong-output", "success, but " + why);
		probe("c05.success-justified");
	}
	if (!ok && done) {
		const string &e = o.cmds[0].err;
		if (e.empty() && !sigpipe_death(o, 0)) bad("silent-failure", "the link step failed without any message");
		if (disturbed(o)) probe("c05.failure-reported");
	}
	if (host && nstray) {
		size_t n = 0; for (size_t at = 0; (at = o.cmds[0].out.find("host: begin\n", at)) != string::npos; at++) n++;
		if (n > 1) bad("copy-continues", "what the calling program had printed comes out " + num((long long)n) + " times");
		if (!n && done && c.sk_out == SK_PIPE && !fc(o, C_OUT) && !killed(o)) bad("output-lost", "what the calling program had printed is lost");
		probe("c05.host-output-once");
	}
	bool ignchld = c.sigign >> SIGCHLD & 1;
	bool tools = healthy.size() == s.files.size();
	if (!disturbed(o) && !ignchld && tools) {
		string why;
		if (ok != r0) bad("false-failure", string("no fault happened, the linker ended well, but the compile is reported as ") + (ok ? "good" : "failed") + ": " + clip(o.cmds[0].err));
		if (!same_text("stderr", o.cmds[0].err, r.cmds[0].err, why)) bad("benign-difference", why);
		if (!same_fs(o.fs, r.fs, why)) bad("benign-difference", why);
	}
	if (!ok && done && cc.size() == 1 && cc[0]->ended && cc[0]->status == 0x10000 && r0 && tools && !ignchld) {
		// the linker did its work; only an unlearnable end or another failed call may spoil it
		bool excuse = false;
		for (auto &fl : o.flog) { const Fault &f = s.phases[0].faults[(size_t)fl.fault]; if (f.kind == F_ERR && !(f.cls == C_WAIT && f.a == EINTR)) excuse = true; if (f.kind == F_CCEXIT || f.kind == F_CCSIG || f.kind == F_NULL || f.kind == F_ERR) excuse = true; }
		if (!excuse) bad("false-failure", "the linker ended well, yet the compile is reported as failed: " + clip(o.cmds[0].err));
	}
	if (host && done && nstray) {
		bool late = false; for (auto &fl : o.flog) { const Fault &f = s.phases[0].faults[(size_t)fl.fault]; if (f.cls == C_WAIT && fl.step > o.cmds[0].reqs[0].step1) late = true; if (f.cls == C_FORK && fl.step < o.cmds[0].reqs[0].step0) late = true; }
		if (!late && !ignchld) for (int i = 0; i < nstray; i++) {
			int want = c.stray[(size_t)i].second; want = want >= 1000 ? want - 1000 : want << 8;
			auto &g = o.cmds[0].stray[(size_t)i];
			if (!g.first) bad("stray-reaped", "the calling program's own child was reaped by the compile");
			if (g.second != want) bad("stray-reaped", "the calling program got the wrong status for its own child");
			probe("c05.stray-intact");
		}
	}
}

// ---------------------------------------------------------------------- C06
static void j_c06(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases.back().cmds[0];
	Model m = model_of(c);
	vector<FileSpec> want = s.files;
	const Outcome &r0 = reference(s.files, c);
	if (crashed(r0, 0)) skip("reference crashes");
	Fs before = initial_fs(s.files);
	auto intact = [&](const Outcome &o, size_t ph) {
		for (auto &f : before) {
			if (m.allowed.count(f.first)) continue;
			auto it = o.fs.find(f.first);
			if (it == o.fs.end() || !(it->second == f.second)) bad("source-damaged", f.first + " is damaged after interruption " + num((long long)ph + 1));
		}
	};
	size_t n = s.phases.size();
	for (size_t i = 0; i < n; i++) {
		const Outcome &o = x.run(i);
		if (i + 1 < n) {
			intact(o, i);
			if (killed(o)) probe("c06.interrupted");
			continue;
		}
		for (auto &fl : o.flog) { const Fault &f = s.phases[i].faults[(size_t)fl.fault]; if (f.kind == F_EDIT) { const EditSpec &e = s.phases[i].edits[(size_t)f.a]; for (auto &w : want) if (w.path == e.path) w.data = e.data, w.mode = 0644; } }
		vector<FileSpec> clean; for (auto &f : want) if (!(m.allowed.count(f.path) && f.type == T_FILE && f.path != m.src_abs)) clean.push_back(f);
		const Outcome &r = reference(clean, c);
		must_end(o);
		string why;
		if (!equal_all(o, 0, r, why, false)) bad("next-run-differs", "running the command again after " + num((long long)n - 1) + " interruption(s): " + why);
		for (auto &p : m.allowed) if (!same_file(o.fs, r.fs, p, why)) {
			// a rejected or empty program writes nothing: older leftovers may stay
			const FileSpec *now = file_at(clean, m.src_abs);
			if (!r.exit0(0) || (r.fs.find(p) == r.fs.end() && (p == m.out_abs || (now && now->data.empty())))) { probe("c06.leftover-of-rejected"); continue; }
			// a file that was there before the first run keeps its permissions
			if (file_at(s.files, p) && o.fs.count(p) && r.fs.count(p) && same_text(p.c_str(), o.fs.at(p).data, r.fs.at(p).data, why)) continue;
			bad("next-run-differs", "running the command again: " + why);
		}
		probe("c06.recovered");
	}
}

// ---------------------------------------------------------------------- C07
static int cmd_of_key(const Outcome &o, int key) { const ProcOut *p = o.proc(key); return p ? p->cmd : -1; }
static void j_c07(Ctx &x) {
	const Scen &s = x.s; const auto &cs = s.phases[0].cmds;
	vector<Model> ms; for (auto &c : cs) ms.push_back(model_of(c));
	for (size_t i = 0; i < ms.size(); i++) for (size_t k = 0; k < ms.size(); k++) if (i != k) {
		for (auto &p : ms[i].allowed) { if (ms[k].allowed.count(p) || p == ms[k].src_abs) skip("overlapping outputs"); if (file_at(s.files, p)) skip("overlapping outputs"); for (auto &q : ms[k].allowed) if (q.compare(0, p.size() + 1, p + "/") == 0) skip("overlapping outputs"); }
		if (ms[i].src_abs == ms[k].src_abs) skip("same source");
	}
	vector<Outcome> refs; for (auto &c : cs) refs.push_back(reference(s.files, c));
	const Outcome &o = x.run(0);
	std::set<int> hit;
	for (auto &fl : o.flog) { const Fault &f = s.phases[0].faults[(size_t)fl.fault]; if (f.kind != F_DELAY) hit.insert(cmd_of_key(o, fl.key)); }
	for (size_t i = 0; i < cs.size(); i++) {
		if (hit.count((int)i)) continue;
		string why;
		if (!o.cmds[i].exited) bad("never-ends", "compile " + num((long long)i + 1) + " never ends next to the others");
		if (!equal_all(o, (int)i, refs[i], why, false)) bad("interference", "compile " + num((long long)i + 1) + " of " + cs[i].argv[1] + " next to others: " + why);
		for (auto &p : ms[i].allowed) if (!same_file(o.fs, refs[i].fs, p, why)) bad("interference", "compile " + num((long long)i + 1) + " next to others: " + why);
		probe("c07.compared");
	}
	for (auto &f : s.files) if (f.type == T_FILE) { auto it = o.fs.find(f.path); if (it == o.fs.end() || it->second.data != f.data) bad("interference", f.path + " was damaged"); }
}

// ---------------------------------------------------------------- C08 / C11
ReqPlan plan_of(const vector<string> &q) {
	ReqPlan p; vector<string> tail;
	for (size_t i = 0; i < q.size(); i++) {
		if (q[i] == "-o") { p.opts.push_back(q[i]); p.opts.push_back(q[++i]); }
		else if (q[i] == "--") { tail = { q[i], q[i + 1] }; i++; }
		else if (q[i].size() && q[i][0] == '-') p.opts.push_back(q[i]);
		else p.files.push_back(q[i]);
	}
	for (auto &t : tail) p.opts.push_back(t);
	return p;
}
static bool hit_between(const Outcome &o, const Scen &s, uint32_t a, uint32_t b) {
	for (auto &fl : o.flog) { const Fault &f = s.phases[0].faults[(size_t)fl.fault]; if (f.kind != F_DELAY && f.kind != F_SHORT && fl.step >= a && fl.step <= b) return true; }
	return fk(o, F_DISK) > 0;
}
static void j_c08(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	struct Want { int ret = 0; string err, out; bool unknown = false; vector<std::pair<string, string>> put; std::set<string> gone; vector<Model> ms; };
	vector<Want> want;
	std::set<string> touched;
	bool way = false;                   // something lies where an output belongs
	vector<FileSpec> files = s.files;   // as they are when a request begins
	for (auto &q : c.reqs) {
		for (auto &a : q) {
			if (!a.compare(0, 5, "-@cp:")) {
				size_t z = a.find(':', 5); if (z == string::npos) continue;
				string from = a.substr(5, z - 5), to = a.substr(z + 1); const FileSpec *f = file_at(files, from); if (!f) continue;
				string d = f->data; int kind = f->kind; bool have = false;
				for (auto &g : files) if (g.path == to) { g.data = d; g.kind = kind; have = true; }
				if (!have) { FileSpec g; g.path = to; g.data = d; g.kind = kind; files.push_back(g); }
				touched.insert(to);
			}
			else if (!a.compare(0, 5, "-@rm:")) { for (size_t i = 0; i < files.size();) { if (files[i].path == a.substr(5)) files.erase(files.begin() + (long)i); else i++; } touched.insert(a.substr(5)); }
		}
		ReqPlan p = plan_of(q); Want w;
		for (auto &f : p.files) {
			CmdSpec one = c; one.reqs.clear(); one.stray.clear();
			vector<string> rq = p.opts; size_t at = 0; for (; at < rq.size(); at++) if (rq[at] == "--") break;
			rq.insert(rq.begin() + (long)at, f);
			one.reqs.push_back(rq);
			const Outcome &r = reference(files, one);
			if (crashed(r, 0) || !r.cmds[0].reqs[0].done) skip("reference ends the process");
			Model m = model_req(q, f, c.cwd);
			const FileSpec *src = file_at(files, m.src_abs);
			bool nothing = src && src->data.empty();   // an empty source: no output is written or removed
			for (auto &pa : m.allowed) {
				const FileSpec *there = file_at(files, pa);
				bool blocked = there && (there->type == T_DIR || there->data == "protected");
				if (there && !blocked) skip("output over an input");
				if (blocked) way = true;
				auto it = r.fs.find(pa);
				if (it != r.fs.end()) { w.put.push_back({ pa, it->second.data }); w.gone.erase(pa); }
				else if (r.cmds[0].reqs[0].ret == 0 && !nothing) w.gone.insert(pa);
			}
			w.err += r.cmds[0].reqs[0].err; w.out += r.cmds[0].reqs[0].out; w.ret = r.cmds[0].reqs[0].ret;
			w.ms.push_back(m);
			if (w.ret) break;
		}
		want.push_back(w);
	}
	const Outcome &o = x.run(0);
	must_end(o);
	if (crashed(o, 0) || o.cmds[0].heap_err) no_crash(o, 0, "in a sequence of compiles within one process");
	const CmdOut &co = o.cmds[0];
	std::map<string, string> disk; std::set<string> unsure, absent;
	for (size_t i = 0; i < c.reqs.size(); i++) {
		const ReqOut &q = co.reqs[i]; const Want &w = want[i];
		if (!q.begun) { if (i && !co.reqs[i - 1].done) break; bad("request-lost", "request " + num((long long)i + 1) + " was never begun"); }
		uint32_t e = q.done ? q.step1 : co.end_step;
		bool hit = hit_between(o, s, q.step0, e);
		if (!q.done) { if (!hit) bad("process-ended", "request " + num((long long)i + 1) + " ended the calling program (" + status_str(o, 0) + "): " + clip(co.err)); probe("c08.fault-ended-process"); }
		if (hit) { for (auto &m : w.ms) for (auto &p : m.allowed) { unsure.insert(p); disk.erase(p); absent.erase(p); } probe("c08.faulted-request"); if (!q.done) break; continue; }
		string why, id = "request " + num((long long)i + 1) + ": ";
		if (!same_text("stderr", q.err, w.err, why)) bad("history-dependent", id + why);
		if (!same_text("stdout", q.out, w.out, why)) bad("history-dependent", id + why);
		if (q.ret != w.ret) bad("history-dependent", id + "returned " + num(q.ret) + " instead of " + num(w.ret));
		for (auto &p : w.put) { disk[p.first] = p.second; unsure.erase(p.first); absent.erase(p.first); }
		for (auto &p : w.gone) { absent.insert(p); disk.erase(p); }
		if (i) probe("c08.later-request-compared");
	}
	for (auto &d : disk) if (!unsure.count(d.first)) {
		auto it = o.fs.find(d.first);
		if (it == o.fs.end()) { if (way) continue; bad("history-dependent", d.first + " is missing"); }
		string why; if (!same_text(d.first.c_str(), it->second.data, d.second, why)) bad("history-dependent", why);
	}
	if (!way) for (auto &a : absent) if (!unsure.count(a) && !disk.count(a) && o.fs.count(a)) bad("history-dependent", a + " should not exist");
	// and nothing else appears
	std::set<string> all; for (auto &w : want) for (auto &m : w.ms) all.insert(m.allowed.begin(), m.allowed.end());
	for (auto &q : c.reqs) { ReqPlan p = plan_of(q); for (auto &f : p.files) { Model m = model_req(q, f, c.cwd); all.insert(m.allowed.begin(), m.allowed.end()); } }
	for (auto &u : o.muts) for (const string *p : { &u.path, &u.path2 }) if (!p->empty() && !all.count(*p) && !touched.count(*p)) bad("history-dependent", *p + " was touched, which belongs to no request");
}

// ---------------------------------------------------------------------- C09
static void j_c09(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	Model m = model_of(c);
	vector<FileSpec> clean; bool left = false;
	for (auto &f : s.files) { if (m.allowed.count(f.path) && f.type == T_FILE && f.path != m.src_abs) { left = true; continue; } clean.push_back(f); }
	CmdSpec rc = c; if (s.variant == "elsewhere") rc.cwd = c.cwd == "/elsewhere" ? "/" : "/elsewhere";
	const Outcome &r = reference(clean, rc);
	if (crashed(r, 0)) skip("reference crashes");
	const Outcome &o = x.run(0);
	must_end(o);
	x.nontriv = true;
	string why;
	no_crash(o, 0, "with other memory contents or surroundings");
	if (!equal_all(o, 0, r, why, false)) bad("depends-on-surroundings", why);
	for (auto &p : m.allowed) {
		if (!r.exit0(0) || !r.fs.count(p)) {
			if (!left && !same_file(o.fs, r.fs, p, why)) bad("depends-on-surroundings", why);
			continue;
		}
		if (o.fs.find(p) == o.fs.end()) bad("depends-on-surroundings", p + " is missing");
		if (!same_text(p.c_str(), o.fs.at(p).data, r.fs.at(p).data, why)) bad("depends-on-surroundings", why);
		if (m.mode == MO_LINK && !(o.fs.at(p).mode & 0100)) bad("depends-on-surroundings", p + " is not executable");
	}
	if (left) probe("c09.older-files");
	probe("c09.compared");
}

// ---------------------------------------------------------------------- C10
static vector<string> lines(const string &t) { vector<string> v; string c; for (char ch : t) { c += ch; if (ch == '\n') { v.push_back(c); c.clear(); } } if (!c.empty()) v.push_back(c); return v; }
static bool is_warning(const string &l) { return l.find(": Warning: ") != string::npos || l.find("Warning\033[0m: ") != string::npos; }
static bool is_diag(const string &l) { return l.find(": line ") != string::npos && l.find(" column ") != string::npos; }

static void j_c10(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	Model m = model_of(c);
	const FileSpec *src = file_at(s.files, m.src_abs);
	const Outcome &r = reference(s.files, c);
	string why;
	// the plain run itself
	if (crashed(r, 0)) bad("crash", "compiler dies of signal " + num(r.cmds[0].crashed) + " instead of reporting a problem");
	if (!r.exit0(0) && r.cmds[0].err.empty()) bad("silent-failure", status_str(r, 0) + " without any message");
	if ((!m.to_stdout || !r.exit0(0)) && !r.cmds[0].out.empty() && m.src != "") bad("stray-stdout", "stdout carries something nobody asked for: " + clip(r.cmds[0].out));
	auto nodup = [&](const string &err) { std::set<string> seen; for (auto &l : lines(err)) if (is_diag(l) && !seen.insert(l).second) bad("duplicate-message", clip(l)); };
	nodup(r.cmds[0].err);
	if (s.variant == "long-name" || s.variant == "long-path") {
		// the same program with a short name in the place of the long one reports the same, name for name
		string lng = m.src_abs, shrt = "/w/qZk.sk";
		vector<FileSpec> fs = s.files; CmdSpec q = c;
		auto subst = [](string t, const string &a, const string &b) { for (size_t i = 0; (i = t.find(a, i)) != string::npos; i += b.size()) t.replace(i, a.size(), b); return t; };
		if (s.variant == "long-name") {
			if (!src) skip("no source");
			lng.clear(); string w;
			for (char ch : src->data + " ") { if (isalnum((unsigned char)ch) || ch == '_') w += ch; else { if (w.compare(0, 3, "lNm") == 0) lng = w; w.clear(); } }
			shrt = "qZk"; if (lng.size() < 4) skip("no long name");
			for (auto &f : fs) if (f.path == m.src_abs) f.data = subst(f.data, lng, shrt);
		}
		else { for (auto &f : fs) if (f.path == m.src_abs) f.path = shrt; for (auto &a : q.argv) if (a == lng) a = shrt; }
		Outcome t = reference(fs, q);
		const Outcome &r2 = reference(s.files, c);
		if (t.cmds[0].status != r2.cmds[0].status) bad("long-name", "a name of " + num((long long)lng.size()) + " characters ends with " + status_str(r2, 0) + ", a short one with " + status_str(t, 0));
		if (!same_text("stderr", r2.cmds[0].err, subst(t.cmds[0].err, shrt, lng), why)) bad("message-incomplete", "compared with a short name: " + why);
		if (m.to_stdout && s.variant == "long-name" && !same_text("stdout", r2.cmds[0].out, subst(t.cmds[0].out, shrt, lng), why)) bad("long-name", "compared with a short name: " + why);
		probe("c10.long-name-compared");
	}
	int nw;
	if (s.variant == "many-warnings" && src && !m.bad && sscanf(src->data.c_str(), "# warned %d", &nw) == 1) {
		// every unit of the program is reported, in order
		vector<string> ls = lines(r.cmds[0].err);
		if (m.werror) { if (r.exit0(0)) bad("message-missing", "--werror accepts a program that deserves " + num(2 * nw) + " warnings"); }
		else if (!m.quiet) {
			long last = 0; int conds = 0;
			for (auto &l : ls) {
				if (l.find("condition is always") == string::npos) continue;
				size_t q = l.find(": line "); long at = q == string::npos ? 0 : atol(l.c_str() + q + 7);
				if (at <= last) bad("message-order", "line " + num(at) + " is reported after line " + num(last));
				last = at; conds++;
			}
			if (conds != nw) bad("message-missing", num(conds) + " of " + num(nw) + " conditions that are always the same are reported: " + clip(r.cmds[0].err));
			for (int i = 0; i < nw; i++) {
				char id[16]; snprintf(id, sizeof id, "u_%05d_q", i);
				size_t k = occurs(r.cmds[0].err, id);
				if (k != 1) bad("message-missing", string("the unused variable ") + id + " is reported " + num((long long)k) + " times");
			}
			if (!r.exit0(0) && !unwritable(s, m)) bad("valid-refused", clip(r.cmds[0].err));
		}
		probe("c10.warnings-counted");
	}
	const Outcome &o = x.run(0);
	if (o.cmds[0].crashed && o.cmds[0].err.empty() && !fc(o, C_ERR) && c.sk_err != SK_CLOSED) bad("silent-failure", "compiler died of signal " + num(o.cmds[0].crashed) + " without any message");
	if (!o.cmds[0].exited) skip("never ends");
	bool errbad = fc(o, C_ERR) > 0 || c.sk_err == SK_CLOSED;
	uint32_t other = 0; for (auto &fl : o.flog) { const Fault &f = s.phases[0].faults[(size_t)fl.fault]; if (f.cls != C_ERR && f.kind != F_DELAY && f.kind != F_SHORT) other++; }
	if (!o.exit0(0) && !errbad && o.cmds[0].err.empty() && !sigpipe_death(o, 0)) bad("silent-failure", status_str(o, 0) + " without any message");
	if (!errbad) nodup(o.cmds[0].err);
	if (!m.to_stdout && !o.cmds[0].out.empty() && m.src != "") bad("stray-stdout", clip(o.cmds[0].out));
	if (src && src->kind == PK_INVALID && !r.exit0(0) && !o.cmds[0].out.empty() && m.src != "") bad("stray-stdout", clip(o.cmds[0].out));
	if (!other) {
		if (o.cmds[0].status != r.cmds[0].status) bad("stderr-matters", string("with ") + (errbad ? "a failing stderr " : "a slow stderr ") + status_str(o, 0) + " instead of " + status_str(r, 0));
		if (!errbad && !same_text("stderr", o.cmds[0].err, r.cmds[0].err, why)) bad("message-damaged", why);
		if (!same_text("stdout", o.cmds[0].out, r.cmds[0].out, why)) bad("stderr-matters", why);
		if (!same_fs(o.fs, r.fs, why)) bad("stderr-matters", why);
		if (errbad) probe("c10.bad-stderr-harmless");
	}
	else {
		// a failing call elsewhere: what is reported about the program stays a part of the plain report
		probe("c10.failure-diagnosed");
	}
	// quiet
	if (!m.werror && m.src != "" && !m.bad) {
		CmdSpec q = c;
		bool tail = false; vector<string> av; bool had = false;
		for (size_t i = 0; i < q.argv.size(); i++) { if (q.argv[i] == "--") tail = true; if (!tail && i && q.argv[i] == "-q" && q.argv[i - 1] != "-o") { had = true; continue; } av.push_back(q.argv[i]); }
		if (!had) av.insert(av.begin() + 1, "-q");
		q.argv = av;
		Outcome rcopy = r;
		const Outcome &t = reference(s.files, q);
		const Outcome &loud = had ? t : rcopy, &quiet = had ? rcopy : t;
		string e; bool any = false; for (auto &l : lines(loud.cmds[0].err)) { if (is_warning(l)) any = true; else e += l; }
		if (loud.cmds[0].status != quiet.cmds[0].status) bad("quiet-matters", "with -q " + status_str(quiet, 0) + " instead of " + status_str(loud, 0));
		if (!same_text("stderr under -q", quiet.cmds[0].err, e, why)) bad("quiet-matters", why);
		if (!same_text("stdout under -q", quiet.cmds[0].out, loud.cmds[0].out, why)) bad("quiet-matters", why);
		if (!same_fs(quiet.fs, loud.fs, why)) bad("quiet-matters", why);
		probe(any ? "c10.quiet-removed-warnings" : "c10.quiet-compared");
	}
}

// ---------------------------------------------------------------------- C11
static void j_c11(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	const Outcome &o = x.run(0);
	if (!ended(o)) skip("never ends");
	if (crashed(o, 0)) skip("crashes");
	for (auto &k : o.cc) if (k.leak) { char b[40]; snprintf(b, sizeof b, "%llx", (unsigned long long)k.leak); bad("descriptor-inherited", string("the linker inherits descriptors opened by the compile, mask ") + b); }
	bool ignchld = c.sigign >> SIGCHLD & 1;
	bool waitbad = ignchld;   // an interrupted wait is no excuse, one the system refuses is
	for (auto &fl : o.flog) { const Fault &f = s.phases[0].faults[(size_t)fl.fault]; if (f.kind == F_ERR && (f.cls == C_WAIT || f.cls == C_ANY) && f.a != EINTR) waitbad = true; }
	auto object_gone = [&](const Model &m, bool attempted, uint32_t a, uint32_t b) {
		if (m.mode != MO_LINK || m.bad) return;
		if (!o.fs.count(m.obj_abs)) return;
		if (fc(o, C_UNLINK)) return;
		bool wrote = false; for (auto &u : o.muts) if (u.path == m.obj_abs && u.step >= a && u.step <= b) wrote = true;
		if (!wrote) return;
		if (attempted || !hit_between(o, s, a, b)) bad("object-left", m.obj_abs + " is left behind");
	};
	if (c.kind == CMD_HOST) {
		for (size_t i = 0; i < c.reqs.size(); i++) {
			const ReqOut &q = o.cmds[0].reqs[i];
			if (!q.done) break;
			char b[120]; snprintf(b, sizeof b, "request %zu: descriptors open before %llx, after %llx", i + 1, (unsigned long long)q.fds0, (unsigned long long)q.fds1);
			if (q.fds1 & ~q.fds0) bad("descriptor-leak", b);
			if (q.fds0 & ~q.fds1) bad("descriptor-closed", b);
			if (!waitbad && (q.kids1 & ~q.kids0)) bad("child-left", "request " + num((long long)i + 1) + " leaves a child running or unreaped");
			ReqPlan p = plan_of(c.reqs[i]);
			for (auto &f : p.files) {
				Model m = model_req(c.reqs[i], f, c.cwd);
				bool att = false; for (auto &k : o.cc) for (auto &in : k.in) if (in == m.obj_abs && k.step_start >= q.step0 && k.step_start <= q.step1) att = true;
				bool later = false; for (size_t z = i + 1; z < c.reqs.size(); z++) for (auto &g : plan_of(c.reqs[z]).files) if (model_req(c.reqs[z], g, c.cwd).allowed.count(m.obj_abs)) later = true;
				if (!later) object_gone(m, att, q.step0, q.step1);
			}
			probe(hit_between(o, s, q.step0, q.step1) ? "c11.faulted-request-clean" : "c11.request-clean");
		}
		return;
	}
	if (!o.cmds[0].exited || !(o.cmds[0].status & 0x10000)) return;
	Model m = model_of(c);
	object_gone(m, top(o, 0).cnt[C_FORK] > 0, 0, ~0u);
	if (!waitbad) for (auto &p : o.procs) if (p.key >= KEYMUL) {
		if (!p.exited || p.end_step > o.cmds[0].end_step) bad("child-left", "a child is still running when the compiler ends");
		if (!p.reaped) bad("child-left", "a child was never waited for");
	}
	probe(disturbed(o) ? "c11.cli-after-fault" : "c11.cli-clean");
}

// ---------------------------------------------------------------------- C15
static void j_c15(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	const Outcome &o = x.run(0);
	if (!ended(o)) skip("never ends");
	if (crashed(o, 0)) skip("crashes");
	static const char *const what[] = { "the current directory", "the file mode mask", "what happens on signals", "the set of blocked signals", "the open descriptors or their flags", "limits, timers, session or priority", "the environment", "the arguments", "the settings", "the locale (other than LC_CTYPE)" };
	for (size_t i = 0; i < c.reqs.size(); i++) {
		const ReqOut &q = o.cmds[0].reqs[i];
		if (!q.done) break;
		for (int k = 0; k < 10; k++) if (q.own0[k] != q.own1[k]) {
			if (k == 4 && (q.fds0 != q.fds1)) continue;    // a matter of C11
			bad("caller-changed", "request " + num((long long)i + 1) + " changed " + what[k] + " of the calling program");
		}
		x.nontriv = true;
		probe(hit_between(o, s, q.step0, q.step1) ? "c15.faulted-request" : "c15.request");
	}
	if (c.stray.size()) for (auto &st : o.cmds[0].stray) if (!st.first && !fc(o, C_FORK)) bad("caller-changed", "a child of the calling program can no longer be waited for");
}

// ---------------------------------------------------------------------- C12
static void j_c12(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	no_excuse = true;
	const Outcome &r = reference(s.files, c);
	const Outcome &o = x.run(0);
	must_end(o);
	for (auto &p : o.procs) {
		if (p.stub) continue;
		if (!p.exited) bad("never-ends", "process " + num(p.key) + " never ends");
		const ProcOut *q = r.proc(1);
		// stdio and LLVM fall back to one call per byte on some descriptors
		size_t bytes = (q ? q->wbytes : 0) + o.cmds[0].err.size();
		uint32_t lim = 3 * (q ? q->nsys : 0) + 300 + (uint32_t)bytes;
		if (p.nsys > lim) bad("unbounded", "process " + num(p.key) + " made " + num(p.nsys) + " system calls; the plain run needs " + num(q ? q->nsys : 0));
	}
	probe("c12.ended");
}

// ---------------------------------------------------------------------- C13
static vector<string> imports_of(const string &t) {
	vector<string> v; size_t i = 0;
	while (i < t.size()) { size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); string l = t.substr(i, e - i); if (!l.compare(0, 7, "import ")) v.push_back(l.substr(7)); i = e + 1; }
	return v;
}
// what opening a path for reading must come to: 0 or an error number
static int open_fate(const vector<FileSpec> &fs, const string &p, string *final) {
	string q = p;
	for (int d = 0; d < 45; d++) {
		if (q.substr(q.rfind('/') + 1).size() > 255) return ENAMETOOLONG;
		const FileSpec *f = file_at(fs, q);
		if (!f) return ENOENT;
		if (f->type == T_LINK) { q = f->data[0] == '/' ? f->data : abspath(dirname_of(q), f->data); continue; }
		*final = q;
		return f->mode & 0400 ? 0 : EACCES;
	}
	return ELOOP;
}
static void j_c13(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	Model m = model_of(c);
	const FileSpec *src = file_at(s.files, m.src_abs);
	if (!src) skip("no source");
	string dir = dirname_of(m.src_abs); if (dir == "/") dir = "";
	const Outcome &o = x.run(0);
	must_end(o);
	no_crash(o, 0, "while handling imports");
	vector<string> mods = imports_of(src->data);
	const string &err = o.cmds[0].err;
	// all that the message about a module must say
	auto says = [&](const string &mod, int e) {
		for (auto &l : lines(err)) if (l.find("\"" + mod + "\"") != string::npos || l.find(mod) != string::npos) if (l.find(strerror(e)) != string::npos) return true;
		return false;
	};
	if (!o.exit0(0) && err.empty() && !sigpipe_death(o, 0)) bad("silent-rejection", status_str(o, 0) + " without any message");
	if (fk(o, F_EDIT)) { probe("c13.edited"); return; }
	string firstbad; int reason = 0;
	for (auto &md : mods) {
		string fin; int e = open_fate(s.files, dir + "/" + md + ".sk", &fin);
		if (e) { firstbad = md; reason = e; break; }
	}
	if (!disturbed(o)) {
		if (firstbad.empty()) {
			if (!o.exit0(0)) bad("import-refused", "every module can be opened, yet: " + status_str(o, 0) + " " + clip(err));
			probe("c13.accepted");
		}
		else {
			if (o.exit0(0)) bad("import-accepted", "module " + firstbad + " cannot be opened (" + strerror(reason) + "), yet the program is accepted");
			if (!says(firstbad, reason)) bad("import-message", "no message names module " + firstbad + " and the reason \"" + strerror(reason) + "\": " + clip(err));
			probe("c13.rejected");
		}
		return;
	}
	// an open failed: was it one made for an import
	bool impfail = false, good = true; string what;
	auto is_target = [&](const string &md, const string &path) { string fin; return open_fate(s.files, dir + "/" + md + ".sk", &fin) == 0 && fin == path; };
	for (auto &p : o.imps) {
		if (p.ret >= 0 || p.path == m.src_abs || m.allowed.count(p.path)) continue;
		for (auto &md : mods) if (p.path == dir + "/" + md + ".sk" || is_target(md, p.path) || (p.isdir && (p.path == m.src_abs.substr(0, m.src_abs.rfind('/')) || p.path == dir || (dir.empty() && p.path == "/")))) {
			bool later = false; for (auto &z : o.imps) if (z.step > p.step && z.path == p.path && z.ret >= 0) later = true;
			if (later && p.isdir) later = false;      // opened again for the next import
			if (later) continue;
			impfail = true; what = p.path + ": " + strerror(-p.ret);
			bool named = false;
			if (!p.isdir) named = says(md, -p.ret); else for (auto &m2 : mods) if (says(m2, -p.ret)) named = true;
			if (!named) good = false;
		}
	}
	if (impfail) {
		if (o.exit0(0)) bad("import-accepted", "an import could not be opened (" + what + "), yet the program is accepted");
		if (!good) bad("import-message", "no message names the module and the reason for " + what + ": " + clip(err));
		probe("c13.open-failure-rejected");
	}
	else if (!firstbad.empty() && o.exit0(0)) bad("import-accepted", "module " + firstbad + " cannot be opened, yet the program is accepted");
	else {
		// the fault hit something else; a failed close of a module must not matter... any failure is diagnosed
		probe("c13.other-fault");
	}
}

vector<vector<std::pair<uint32_t, int>>> *last_picks;
// ---------------------------------------------------------------------- C14
// what was said about the program, as opposed to about files and tools
static string said(const string &err) {
	string v;
	for (auto &l : lines(err)) {
		size_t a = l.find("Compilation error"), b = l.find("Warning");
		size_t z = std::min(a, b);
		if (z == string::npos || z < 2) continue;
		if (l.compare(0, 7, "skull: ") == 0) continue;
		v += l + "\n";
	}
	return v;
}
static void j_c14(Ctx &x) {
	const Scen &s = x.s; const CmdSpec &c = s.phases[0].cmds[0];
	bool host = c.kind == CMD_HOST;
	static const vector<vector<string>> kinds = { { "-E", "-o", "/w/.zz14.ll" }, { "--c-backend", "-o", "/w/.zz14.c" }, { "-c", "-o", "/w/.zz14.o" }, { "-S", "-g", "-o", "/w/.zz14.s" }, { "-O1", "-E", "-o", "/w/.zz14.ll" }, { "-o", "/w/.zz14" }, { "--c-backend", "-g", "-o", "/w/.zz14.c" } };
	vector<string> flags; string srcarg;
	if (host) { for (auto &a : c.reqs[0]) { if (a == "-q" || a == "--werror" || a == "--color") flags.push_back(a); } srcarg = c.reqs[0].back(); }
	else {
		Model m = model_of(c);
		if (m.bad || m.src == "" || !file_at(s.files, m.src_abs)) skip("not a compile");
		if (m.quiet) flags.push_back("-q");
		if (m.werror) flags.push_back("--werror");
		if (m.color) flags.push_back("--color");
		srcarg = m.src;
	}
	Model m0 = host ? model_req(c.reqs[0], srcarg, c.cwd) : model_of(c);
	for (auto &f : s.files) if (m0.allowed.count(f.path) && f.path == m0.src_abs) skip("output over the source");
	CmdSpec t; t.cwd = c.cwd; t.env = c.env;
	vector<Outcome> tw;
	for (uint64_t i = 0; i < 2; i++) {
		const auto &k = kinds[(s.seed * 3 + i * 2 + (s.seed >> 3) % 3) % kinds.size()];
		t.argv = { "skull", srcarg }; for (auto &a : k) t.argv.push_back(a); for (auto &a : flags) t.argv.push_back(a);
		tw.push_back(reference(s.files, t));
		const Outcome &q = tw.back();
		if (crashed(q, 0) || !q.cmds[0].exited) skip("reference crashes");
		if (unwritable(s, model_of(t))) skip("the other output cannot be written");   // a name too long for an object next to it
	}
	string why;
	bool ok = tw[0].exit0(0); string say = said(tw[0].cmds[0].err);
	if (tw[1].exit0(0) != ok) bad("verdict-depends-on-output", "accepted for one kind of output, rejected for another: " + clip(tw[1].cmds[0].err + tw[0].cmds[0].err));
	if (!same_text("stderr", said(tw[1].cmds[0].err), say, why)) bad("report-depends-on-output", "two kinds of output: " + why);
	const Outcome &o = x.run(0);
	must_end(o);
	if (host) {
		if (crashed(o, 0)) no_crash(o, 0, "in a sequence of compiles within one process");
		for (size_t i = 0; i < c.reqs.size(); i++) {
			const ReqOut &q = o.cmds[0].reqs[i]; string id = "request " + num((long long)i + 1) + ": ";
			if (!q.done) bad("process-ended", id + "ended the calling program (" + status_str(o, 0) + ")");
			if (!same_text("stderr", said(q.err), say, why)) bad("report-depends-on-output", id + why);
			Model m = model_req(c.reqs[i], srcarg, c.cwd);
			if ((q.ret == 0) != ok && !(ok && unwritable(s, m))) bad("verdict-depends-on-output", id + "returned " + num(q.ret) + (ok ? ", though the program is accepted: " : ", though the program is rejected: ") + clip(q.err));
			if (i) x.nontriv = true;
		}
		probe("c14.session");
		return;
	}
	x.nontriv = true;
	const string &e = o.cmds[0].err;
	if (o.exit0(0) && !ok) bad("verdict-depends-on-output", "a rejected program is accepted");
	if (!disturbed(o) && !o.exit0(0) && ok && !unwritable(s, m0)) bad("verdict-depends-on-output", "an accepted program ends with " + status_str(o, 0) + ": " + clip(e));
	if (crashed(o, 0) || !o.cmds[0].exited || sigpipe_death(o, 0)) { probe("c14.ended-early"); return; }
	static const string gave_up = "LLVM ERROR: IO failure on output stream";   // one write call, which may be cut short
	if (e.find("LLVM ERROR") != string::npos || (!e.empty() && gave_up.compare(0, e.size(), e) == 0)) { probe("c14.llvm-gave-up"); return; }   // LLVM ends the process on its own
	if (!same_text("stderr", said(e), say, why)) bad("report-depends-on-output", (disturbed(o) ? "after a failure behind the front end: " : "") + why);
	probe(disturbed(o) ? "c14.report-survives-failure" : "c14.kinds-agree");
}

Verdict judge(const Scen &s, bool trace, string *trace_out) {
	Verdict v;
	if (!last_picks) last_picks = new vector<vector<std::pair<uint32_t, int>>>();
	last_picks->clear();
	Ctx x(s, trace);
	no_excuse = false;
	try {
		if (s.prop == "C01") j_c01(x);
		else if (s.prop == "C02") j_c02(x);
		else if (s.prop == "C03") j_c03(x);
		else if (s.prop == "C04") j_c04(x);
		else if (s.prop == "C05") j_c05(x);
		else if (s.prop == "C06") j_c06(x);
		else if (s.prop == "C07") j_c07(x);
		else if (s.prop == "C08") j_c08(x);
		else if (s.prop == "C09") j_c09(x);
		else if (s.prop == "C10") j_c10(x);
		else if (s.prop == "C11") j_c11(x);
		else if (s.prop == "C12") j_c12(x);
		else if (s.prop == "C13") j_c13(x);
		else if (s.prop == "C14") j_c14(x);
		else if (s.prop == "C15") j_c15(x);
		else throw string("unknown property");
	}
	catch (const Bad &b) { v.bad = true; v.cls = b.cls; v.detail = b.detail; }
	catch (const Skip &k) { probe((string("skipped: ") + k.why).c_str()); x.nontriv = false; }
	catch (const string &e) { v.error = true; v.detail = e; }
	v.hash = x.hash; v.sig = x.sig; v.nontrivial = x.nontriv;
	if (v.bad) v.hash = fnv(v.cls.data(), v.cls.size(), v.hash);
	if (trace_out) *trace_out = x.tr;
	return v;
}
