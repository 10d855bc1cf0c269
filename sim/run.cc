#include "scen.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <unordered_map>

const char *cls_name[] = { "open", "read", "write", "stdout", "stderr", "close", "seek", "stat", "unlink", "fork", "exec", "wait", "mmap", "getcwd", "misc", "locale", "linker-step", "alloc", "any" };
const char *kind_name[] = { "none", "error", "short", "eof", "kill-before", "kill-after", "power-loss", "edit", "disk-full", "alloc-null", "linker-exit", "linker-signal", "stall" };
Stats *ST;
std::map<string, uint64_t> *PROBE;
void probe(const char *n, uint64_t k) { (*PROBE)[n] += k; }

static string cstr(uint32_t o) { return string(w_cstr(o)); }
static string idata(int i) { Inode *n = &W->ino[i]; return string((const char *)W->heap + n->data, n->size); }

void base_world() {
	w_reset();
	for (const char *d : { "/dev", "/bin", "/usr", "/usr/bin", "/usr/local", "/usr/local/bin", "/tmp", "/w", "/etc", "/home", "/home/u", "/usr/include", "/usr/include/skull" }) w_mkdirs(d, 0755);
	int i = w_mkfile("/dev/null", "", 0, 0666); W->ino[i].type = T_NULL;
	i = w_mkfile("/dev/full", "", 0, 0666); W->ino[i].type = T_FULL;
	for (const char *f : { "/bin/sh", "/usr/bin/sh", "/usr/bin/cc", "/bin/cc" }) w_mkfile(f, "\177ELF", 4, 0755);
}

static Fs snapshot() {
	Fs fs;
	// paths of directories first
	vector<string> path(MAXINO);
	vector<char> known(MAXINO, 0);
	path[1] = ""; known[1] = 1;
	for (bool more = true; more;) {
		more = false;
		for (uint32_t d = 0; d < W->ndent; d++) {
			Dent *e = &W->dent[d];
			if (!e->ino || W->ino[e->ino].type != T_DIR || known[e->ino] || !known[e->dir]) continue;
			path[e->ino] = path[e->dir] + "/" + e->name; known[e->ino] = 1; more = true;
		}
	}
	for (uint32_t d = 0; d < W->ndent; d++) {
		Dent *e = &W->dent[d];
		if (!e->ino || !known[e->dir]) continue;
		FState s; Inode *n = &W->ino[e->ino];
		s.type = n->type; s.mode = n->mode;
		if (n->type == T_FILE || n->type == T_LINK) s.data = idata(e->ino);
		fs[path[e->dir] + "/" + e->name] = std::move(s);
	}
	return fs;
}

static const char *sysname(int nr) {
	switch (nr) {
#define S(x) case SYS_##x: return #x;
		S(open) S(openat) S(close) S(read) S(write) S(pread64) S(pwrite64) S(readv) S(writev) S(lseek) S(stat) S(fstat) S(lstat) S(newfstatat) S(statx) S(access) S(faccessat) S(faccessat2)
		S(unlink) S(unlinkat) S(rename) S(renameat) S(renameat2) S(mkdir) S(chmod) S(fchmod) S(fchmodat) S(ftruncate) S(fsync) S(fdatasync) S(dup) S(dup2) S(dup3) S(fcntl) S(ioctl) S(pipe) S(pipe2) S(getcwd) S(chdir) S(mmap)
		S(fork) S(vfork) S(clone) S(clone3) S(execve) S(wait4) S(waitid) S(exit_group) S(kill) S(tgkill) S(getpid) S(getrandom) S(clock_gettime) S(readlink) S(umask) S(poll)
#undef S
		default: return nullptr;
	}
}

static string make_trace() {
	string t; char b[1800];
	for (uint32_t i = 0; i < W->nev; i++) {
		Ev *e = &W->ev[i];
		const char *n = sysname(e->nr);
		string arg;
		if ((e->arg >> 30) == 2) arg = "\"" + cstr(e->arg & 0x3fffffffu) + "\"";
		else arg = std::to_string((int)e->arg);
		char nb[16]; if (!n) { snprintf(nb, sizeof nb, "sys%d", e->nr); n = nb; }
		if (e->ret == -99999) snprintf(b, sizeof b, "# %5u p%-3d %s(%s...) does not return\n", e->step, e->key, n, arg.c_str());
		else snprintf(b, sizeof b, "# %5u p%-3d %s(%s...) = %lld%s\n", e->step, e->key, n, arg.c_str(), (long long)e->ret, e->fault ? "   <== FAULT" : "");
		t += b;
	}
	for (uint32_t i = 0; i < MAXPROC; i++) {
		Proc *p = &W->proc[i];
		if (p->state == P_FREE) continue;
		snprintf(b, sizeof b, "# process %d (%s): %s%d%s\n", p->key, p->stub ? "linker stub" : "compiler", !p->exited ? "still running, state " : (p->status & 0x10000) ? "exit " : "signal ", p->exited ? (p->status & 0xff) : p->state,
			p->heap_err ? " HEAP MISUSE" : "");
		t += b;
	}
	return t;
}

static void install_files(const vector<FileSpec> &files) {
	for (auto &f : files) {
		string d = dirname_of(f.path);
		if (d.size() > 1) w_mkdirs(d.c_str(), 0755);
		if (f.type == T_DIR) { int i = w_mkdirs(f.path.c_str(), 0755); if (i > 0) W->ino[i].mode = (uint16_t)f.mode; }
		else if (f.type == T_LINK) continue;
		else {
			int i = w_mkfile(f.path.c_str(), f.data.data(), f.data.size(), f.mode);
			if (i > 0) { W->ino[i].tracked = (uint8_t)f.tracked; if (f.type != T_FILE) W->ino[i].type = (uint8_t)f.type; }
		}
	}
	for (auto &f : files) if (f.type == T_LINK) { int i = w_mkfile(f.path.c_str(), f.data.data(), f.data.size(), 0777); if (i > 0) W->ino[i].type = T_LINK; }
	for (auto &f : files) if (f.type == T_DIR) { int i = w_lookup(f.path.c_str()); if (i > 0) W->ino[i].mode = (uint16_t)f.mode; }
}

Fs initial_fs(const vector<FileSpec> &files) { base_world(); install_files(files); return snapshot(); }

static void load_phase(const PhaseSpec &p, const vector<FileSpec> &files) {
	W->cfg = p.cfg;
	for (auto &f : files) if (f.tracked) { int i = w_lookup(f.path.c_str()); if (i > 0) W->ino[i].tracked = 1; }
	for (auto &c : p.cmds) {
		if (W->ncmd >= MAXCMD) break;
		Cmd *m = &W->cmd[W->ncmd++];
		m->kind = c.kind; m->cwd = w_str(c.cwd.c_str());
		for (auto &a : c.argv) if (m->argc < MAXARG - 1) m->argv[m->argc++] = w_str(a.c_str());
		for (auto &a : c.env) if (m->envc < MAXENV - 1) m->envv[m->envc++] = w_str(a.c_str());
		m->skind[0] = (uint8_t)(c.sk_in + 1); m->skind[1] = (uint8_t)c.sk_out; m->skind[2] = (uint8_t)c.sk_err; m->fdpad = c.fdpad; m->sigign = c.sigign;
		for (auto &r : c.reqs) {
			if (m->nreq >= MAXREQ) break;
			Req *q = &m->req[m->nreq++];
			for (auto &a : r) if (q->argc < MAXARG) q->argv[q->argc++] = w_str(a.c_str());
		}
		for (auto &t : c.stray) if (m->stray < 3) { m->stray_steps[m->stray] = t.first; m->stray_status[m->stray++] = t.second; }
	}
	for (auto &f : p.faults) if (W->nfault < MAXFAULT) { W->fault[W->nfault] = f; W->fault[W->nfault++].fired = 0; }
	for (auto &e : p.edits) if (W->nedit < MAXEDIT) {
		Edit *d = &W->edit[W->nedit++];
		d->op = (uint8_t)e.op; d->path = w_str(e.path.c_str()); d->len = e.len; d->dlen = e.data.size();
		d->data = w_alloc(e.data.size() + 1); memcpy(W->heap + d->data, e.data.data(), e.data.size());
	}
	for (auto &k : p.picks) if (W->npick < MAXPICK) { W->pick[W->npick].step = k.first; W->pick[W->npick++].slot = k.second; }
}

Outcome run_phase(const Scen &s, size_t ph, bool fresh, bool trace) {
	Outcome o;
	memset(o.firedk, 0, sizeof o.firedk);
	const PhaseSpec &p = s.phases[ph];
	if (fresh) { base_world(); install_files(s.files); }
	else {
		if (W->power) w_power_loss(p.power_seed);
		w_restart();
		memset(W->firedk, 0, sizeof W->firedk); W->shortio_fired = 0; W->nalloc_total = 0; W->hash = FNV0; W->nswitch = 0;
	}
	load_phase(p, s.files);
	int rc = w_run(20);
	ST->runs++;
	o.deadlock = W->deadlock; o.livelock = W->livelock; o.power = W->power; o.hang = rc == 1; o.unsupported = W->unsupported;
	if (W->harness_err || rc == 2 || rc == 3) { o.problem = W->harness_err ? W->harness_msg : rc == 3 ? "simulated process starved of CPU" : "spawner failed"; ST->harness++; return o; }
	o.ok = true;
	for (uint32_t i = 0; i < W->ncmd; i++) {
		Cmd *m = &W->cmd[i]; Proc *q = &W->proc[i];
		CmdOut c;
		c.status = q->status; c.crashed = q->crashed; c.heap_err = q->heap_err; c.exited = q->exited; c.nsys = q->nsys; c.end_step = q->end_step; c.crash_rip = q->crash_rip;
		c.out = idata(m->out_ino); c.err = idata(m->err_ino);
		for (int r = 0; r < m->nreq; r++) {
			Req *x = &m->req[r]; ReqOut y;
			y.begun = x->begun; y.done = x->done; y.ret = x->ret; y.fds0 = x->fds_before; y.fds1 = x->fds_after; y.kids0 = x->kids_before; y.kids1 = x->kids_after; y.step0 = x->step0; y.step1 = x->step1; y.live0 = x->live_before; y.live1 = x->live_after; memcpy(y.own0, x->own0, sizeof y.own0); memcpy(y.own1, x->own1, sizeof y.own1);
			if (x->done) { y.err = c.err.substr(x->err_off0, x->err_off1 - x->err_off0); y.out = c.out.substr(x->out_off0, x->out_off1 - x->out_off0); }
			c.reqs.push_back(y);
		}
		for (int t = 0; t < m->stray; t++) c.stray.push_back({ m->stray_seen[t], m->stray_got[t] });
		o.cmds.push_back(std::move(c));
	}
	for (int i = 0; i < MAXPROC; i++) {
		Proc *q = &W->proc[i];
		if (q->state == P_FREE) continue;
		ProcOut r;
		r.key = q->key; r.reaped = q->reaped; r.cmd = q->cmd; r.parent_key = q->key / KEYMUL; r.status = q->status; r.stub = q->stub; r.crashed = q->crashed; r.heap_err = q->heap_err; r.exited = q->exited; r.state = q->state; r.nsys = q->nsys; r.wbytes = q->wbytes; r.end_step = q->end_step; r.crash_rip = q->crash_rip; r.crash_addr = q->crash_addr; r.fds_at_exit = q->fds_at_exit;
		memcpy(r.cnt, q->cnt, sizeof r.cnt);
		o.procs.push_back(r);
	}
	for (uint32_t i = 0; i < W->ncc; i++) {
		CcRun *c = &W->cc[i]; CcOut r;
		r.key = c->key; r.cmd = c->cmd; r.started = c->started; r.ended = c->ended; r.status = c->status; r.ninputs = c->ninputs; r.how = c->how; r.weird = c->weird; r.not_cc = c->not_cc; r.step_start = c->step_start; r.step_end = c->step_end;
		r.cmdline = cstr(c->cmdline); r.out = c->out ? cstr(c->out) : ""; r.leak = c->fdmask_leak;
		for (int k = 0; k < c->ninputs; k++) { r.in.push_back(abspath("/", cstr(c->in_path[k]))); r.h0.push_back(c->in_hash0[k]); r.h1.push_back(c->in_hash1[k]); }
		o.cc.push_back(std::move(r));
	}
	for (uint32_t i = 0; i < W->nmut; i++) { Mut *m = &W->mut[i]; o.muts.push_back({ m->step, m->key, m->op, m->stub, cstr(m->path), m->path2 ? cstr(m->path2) : "" }); }
	for (uint32_t i = 0; i < W->nimp; i++) o.imps.push_back({ cstr(W->imp[i].path), W->imp[i].ret, W->imp[i].key, W->imp[i].isdir, W->imp[i].step });
	for (uint32_t i = 0; i < W->nfault; i++) o.fired.push_back(W->fault[i].fired);
	for (uint32_t i = 0; i < W->nflog; i++) o.flog.push_back({ W->flog[i].step, W->flog[i].fault, W->flog[i].key });
	for (uint32_t i = 0; i < W->npicklog; i++) o.picklog.push_back({ W->picklog[i].step, W->picklog[i].slot });
	for (int i = 2; i < MAXINO; i++) if (W->ino[i].used && W->ino[i].tracked && W->ino[i].reads) {
		o.delivered.push_back(string((const char *)W->heap + W->ino[i].deliv, W->ino[i].deliv_hi));
		o.eofat.emplace_back(W->ino[i].eofat, W->ino[i].eofat + W->ino[i].neof); o.eofat.back().push_back(W->ino[i].deliv_run);
	}
	o.fs = snapshot();
	o.hash = W->hash; o.nsys = W->nsys_total; o.nalloc = W->nalloc_total; o.simtime = W->clock; o.nswitch = W->nswitch; o.shortio = W->shortio_fired; o.steps = W->step;
	memcpy(o.firedk, W->firedk, sizeof o.firedk);
	for (int a = 0; a < NKIND; a++) for (int b = 0; b < NCLS; b++) ST->fired[a][b] += W->firedk[a][b];
	ST->sys += o.nsys; ST->alloc += o.nalloc; ST->switches += o.nswitch; ST->simtime_ns += o.simtime; ST->shortio += o.shortio;
	if (trace) o.trace = make_trace();
	return o;
}

// ------------------------------------------------------------- references
static std::unordered_map<uint64_t, Outcome> *refs;
void ref_clear() { if (refs && refs->size() > 60) refs->clear(); }   // only between scenarios

static uint64_t hs(const string &s, uint64_t h) { h = fnv(s.data(), s.size(), h); return fnv("\0|", 2, h); }
const Outcome &ref_run(const vector<FileSpec> &files, const CmdSpec &cmd) {
	if (!refs) refs = new std::unordered_map<uint64_t, Outcome>();
	uint64_t h = FNV0;
	for (auto &f : files) { h = hs(f.path, h); h = hs(f.data, h); int v[2] = { f.type, f.mode }; h = fnv(v, sizeof v, h); }
	for (auto &a : cmd.argv) h = hs(a, h);
	for (auto &r : cmd.reqs) { h = hs("req", h); for (auto &a : r) h = hs(a, h); }
	h = hs(cmd.cwd, h); h = hs(cmd.kind == CMD_CLI ? "cli" : "host", h);
	for (auto &e : cmd.env) if (!e.compare(0, 6, "COLOR=")) h = hs(e, h);
	auto it = refs->find(h);
	if (it != refs->end()) return it->second;
	Scen s; s.files = files;
	s.phases.emplace_back();
	CmdSpec c = cmd;
	c.sk_out = c.sk_err = SK_PIPE; c.sk_in = -1; c.fdpad = 0; c.sigign = 0; c.stray.clear();
	c.env.clear(); c.env.push_back("PATH=/usr/local/bin:/usr/bin:/bin");
	for (auto &e : cmd.env) if (!e.compare(0, 6, "COLOR=")) c.env.push_back(e);
	s.phases[0].cmds.push_back(c);
	Outcome o = run_phase(s, 0, true);
	ST->refs++;
	return (*refs)[h] = std::move(o);
}

// ------------------------------------------------------------------- model
string abspath(const string &cwd, const string &p) {
	string f = p.size() && p[0] == '/' ? p : cwd + "/" + p;
	vector<string> st; string cur;
	for (size_t i = 0; i <= f.size(); i++) {
		if (i == f.size() || f[i] == '/') {
			if (cur == "..") { if (!st.empty()) st.pop_back(); }
			else if (cur != "" && cur != ".") st.push_back(cur);
			cur.clear();
		}
		else cur += f[i];
	}
	string o; for (auto &x : st) o += "/" + x;
	return o.empty() ? "/" : o;
}
string dirname_of(const string &p) { size_t k = p.rfind('/'); if (k == string::npos) return "."; return k ? p.substr(0, k) : "/"; }

static void finish_model(Model &m, bool c, bool S, bool E, bool cb, bool has_o, const string &o, const string &cwd) {
	m.src_abs = abspath(cwd, m.src);
	string dir = dirname_of(m.src_abs), base = m.src_abs.substr(m.src_abs.rfind('/') + 1);
	if (dir == "/") dir = "";
	auto hidden = [&](const char *ext) { return dir + "/." + base + "." + ext; };
	m.mode = cb ? MO_C : E ? MO_LL : S ? MO_ASM : c ? MO_OBJ : MO_LINK;
	if (m.mode == MO_C) m.out_abs = has_o ? o : E ? "-" : hidden("c");
	else if (m.mode == MO_LL) m.out_abs = has_o ? o : "-";
	else if (m.mode == MO_ASM) m.out_abs = has_o ? o : hidden("s");
	else if (m.mode == MO_OBJ) m.out_abs = has_o ? o : hidden("o");
	else {
		m.obj_abs = hidden("o");
		string b = base.size() > 3 ? base.substr(0, base.size() - 3) : base;
		m.out_abs = has_o ? o : dir + "/" + b;
		// the caller may redirect the linker itself
		size_t k = m.extra.find("-o ");
		if (k == 0 || (k != string::npos && m.extra[k - 1] == ' ')) {
			string r = m.extra.substr(k + 3); size_t e = r.find(' '); m.out_abs = r.substr(0, e);
		}
	}
	m.to_stdout = m.out_abs == "-";
	if (!m.to_stdout) { m.out_abs = abspath(cwd, m.out_abs); m.allowed.insert(m.out_abs); }
	if (m.to_stdout && (m.mode == MO_OBJ || m.mode == MO_LINK)) { m.bad = true; m.to_stdout = false; m.allowed.clear(); }
	if (m.mode == MO_LINK && !m.bad) m.allowed.insert(m.obj_abs);
}

Model model_of(const CmdSpec &cs) {
	Model m;
	bool c = false, S = false, E = false, cb = false, has_o = false, have = false;
	string o;
	for (size_t i = 1; i < cs.argv.size(); i++) {
		const string &a = cs.argv[i];
		if (a == "-c") c = true; else if (a == "-S") S = true; else if (a == "-E") E = true;
		else if (a == "--c-backend") cb = true; else if (a == "-q") m.quiet = true; else if (a == "--werror") m.werror = true;
		else if (a == "--color") m.color = true; else if (a == "-g") m.debug = true; else if (a == "--llvm-no-verify") m.noverify = true;
		else if (a == "-O1") m.opt = 1; else if (a == "-O2") m.opt = 2; else if (a == "-O3") m.opt = 3;
		else if (a == "-o" && i + 1 < cs.argv.size()) { has_o = true; o = cs.argv[++i]; }
		else if (a == "--") { for (size_t k = i + 1; k < cs.argv.size(); k++) m.extra += (k > i + 1 ? " " : "") + cs.argv[k]; break; }
		else if (a.size() && a[0] == '-') m.bad = true;
		else { m.src = a; have = true; }
	}
	if (!have) { m.bad = true; return m; }
	finish_model(m, c, S, E, cb, has_o, o, cs.cwd);
	return m;
}
Model model_req(const vector<string> &req, const string &file, const string &cwd) {
	CmdSpec c; c.cwd = cwd; c.argv = { "skull" };
	vector<string> tail;
	for (size_t i = 0; i < req.size(); i++) {
		if (req[i] == "-o") { c.argv.push_back("-o"); c.argv.push_back(req[++i]); continue; }
		if (req[i] == "--") { tail = { "--", req[++i] }; continue; }
		if (!req[i].compare(0, 5, "-@cd:")) c.cwd = abspath(cwd, req[i].substr(5));
		if (!req[i].compare(0, 2, "-@")) continue;      // what the calling program does before
		if (req[i].size() && req[i][0] == '-') c.argv.push_back(req[i]);
	}
	c.argv.push_back(file);
	for (auto &t : tail) c.argv.push_back(t);
	return model_of(c);
}
