#include "scen.h"
#include <sstream>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

static Config def_cfg() {
	Config c; memset(&c, 0, sizeof c);
	c.seed = 1; c.blksize = 4096; c.pidbase = 2000; c.clock0 = 1700000000000000000ULL; c.budget = 400000; c.disk = -1;
	return c;
}
PhaseSpec::PhaseSpec() : cfg(def_cfg()) {}

static string esc(const string &s) {
	string o = "=";
	char b[8];
	for (unsigned char c : s) {
		if (c > 32 && c < 127 && c != '\\') o += (char)c;
		else if (c == ' ') o += "\\s";
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else { snprintf(b, sizeof b, "\\%02x", c); o += b; }
	}
	return o;
}
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static string unesc(const string &s) {
	string o;
	for (size_t i = 1; i < s.size(); i++) {
		if (s[i] != '\\') { o += s[i]; continue; }
		char c = ++i < s.size() ? s[i] : 0;
		if (c == 's') o += ' ';
		else if (c == 'n') o += '\n';
		else if (c == 't') o += '\t';
		else if (i + 1 < s.size()) { o += (char)(hexv(c) * 16 + hexv(s[i + 1])); i++; }
	}
	return o;
}

string scen_write(const Scen &s) {
	std::ostringstream o;
	o << "skullsim 1\nprop " << s.prop << "\nseed " << s.seed << "\nvariant " << esc(s.variant) << "\nclass " << esc(s.cls) << "\ndetail " << esc(s.detail) << "\n";
	for (auto &f : s.files) o << "file " << f.type << ' ' << f.mode << ' ' << f.tracked << ' ' << f.kind << ' ' << esc(f.path) << ' ' << esc(f.data) << "\n";
	for (auto &p : s.phases) {
		const Config &c = p.cfg;
		o << "phase " << p.power_seed << "\n";
		o << "cfg " << c.seed << ' ' << c.fill << ' ' << c.gap << ' ' << c.reuse << ' ' << c.stackfill << ' ' << c.blksize << ' ' << c.pidbase << ' ' << c.clock0 << ' '
		  << c.sched_permille << ' ' << c.sched_seed << ' ' << c.budget << ' ' << c.allocbudget << ' ' << c.disk << ' ' << c.shortio << "\n";
		for (auto &m : p.cmds) {
			o << "cmd " << m.kind << ' ' << esc(m.cwd) << ' ' << m.sk_out << ' ' << m.sk_err << ' ' << m.fdpad << ' ' << m.sigign << ' ' << m.sk_in << "\n";
			for (auto &a : m.argv) o << "arg " << esc(a) << "\n";
			for (auto &a : m.env) o << "env " << esc(a) << "\n";
			for (auto &r : m.reqs) { o << "req\n"; for (auto &a : r) o << "rarg " << esc(a) << "\n"; }
			for (auto &t : m.stray) o << "stray " << t.first << ' ' << t.second << "\n";
		}
		for (auto &f : p.faults) o << "fault " << f.key << ' ' << (int)f.cls << ' ' << (int)f.kind << ' ' << f.nth << ' ' << f.a << ' ' << f.b << ' ' << (int)f.sticky
			<< " # " << kind_name[f.kind] << " at " << cls_name[f.cls] << " call " << f.nth << " of process " << f.key << "\n";
		for (auto &e : p.edits) o << "edit " << e.op << ' ' << esc(e.path) << ' ' << e.len << ' ' << esc(e.data) << "\n";
		for (auto &k : p.picks) o << "pick " << k.first << ' ' << k.second << "\n";
	}
	o << "end\n";
	return o.str();
}

bool scen_read(const string &text, Scen &s, string &err) {
	std::istringstream in(text);
	string line; size_t no = 0;
	s = Scen();
	bool head = false, end = false;
	while (std::getline(in, line)) {
		no++;
		if (line.empty() || line[0] == '#') continue;
		std::istringstream l(line);
		string k, a, b; l >> k;
		auto bad = [&] { err = "line " + std::to_string(no) + ": " + line.substr(0, 80); return false; };
		PhaseSpec *p = s.phases.empty() ? nullptr : &s.phases.back();
		CmdSpec *c = p && !p->cmds.empty() ? &p->cmds.back() : nullptr;
		if (k == "skullsim") head = true;
		else if (k == "prop") l >> s.prop;
		else if (k == "seed") l >> s.seed;
		else if (k == "variant") { l >> a; s.variant = unesc(a); }
		else if (k == "class") { l >> a; s.cls = unesc(a); }
		else if (k == "detail") { l >> a; s.detail = unesc(a); }
		else if (k == "file") { FileSpec f; l >> f.type >> f.mode >> f.tracked >> f.kind >> a >> b; f.path = unesc(a); f.data = unesc(b); s.files.push_back(f); }
		else if (k == "phase") { s.phases.emplace_back(); l >> s.phases.back().power_seed; }
		else if (k == "cfg") {
			if (!p) return bad();
			Config &g = p->cfg;
			l >> g.seed >> g.fill >> g.gap >> g.reuse >> g.stackfill >> g.blksize >> g.pidbase >> g.clock0 >> g.sched_permille >> g.sched_seed >> g.budget >> g.allocbudget >> g.disk >> g.shortio;
			if (!l) return bad();
		}
		else if (k == "cmd") { if (!p) return bad(); CmdSpec m; l >> m.kind >> a >> m.sk_out >> m.sk_err >> m.fdpad >> m.sigign >> m.sk_in; m.cwd = unesc(a); p->cmds.push_back(m); }
		else if (k == "arg") { if (!c) return bad(); l >> a; c->argv.push_back(unesc(a)); }
		else if (k == "env") { if (!c) return bad(); l >> a; c->env.push_back(unesc(a)); }
		else if (k == "req") { if (!c) return bad(); c->reqs.emplace_back(); }
		else if (k == "rarg") { if (!c || c->reqs.empty()) return bad(); l >> a; c->reqs.back().push_back(unesc(a)); }
		else if (k == "stray") { if (!c) return bad(); int x, y; l >> x >> y; c->stray.push_back({ x, y }); }
		else if (k == "fault") {
			if (!p) return bad();
			Fault f; memset(&f, 0, sizeof f); int key, cl, ki, nth, x, y, st;
			l >> key >> cl >> ki >> nth >> x >> y >> st; if (!l) return bad();
			f.key = (int16_t)key; f.cls = (uint8_t)cl; f.kind = (uint8_t)ki; f.nth = nth; f.a = x; f.b = y; f.sticky = (uint8_t)st;
			p->faults.push_back(f);
		}
		else if (k == "edit") { if (!p) return bad(); EditSpec e; l >> e.op >> a >> e.len >> b; e.path = unesc(a); e.data = unesc(b); p->edits.push_back(e); }
		else if (k == "pick") { if (!p) return bad(); uint32_t x; int y; l >> x >> y; p->picks.push_back({ x, y }); }
		else if (k == "end") end = true;
		else return bad();
	}
	if (!head || !end || s.phases.empty()) { err = "not a replay file"; return false; }
	return true;
}
