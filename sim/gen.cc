// Scenario generation: programs, options, names, faults, schedules.
#include "scen.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>

enum { KID = KEYMUL + 1 };   // key of the first child of the first command
static vector<string> *okc, *badc;

static void slurp_dir(const string &d, vector<string> &v) {
	DIR *dp = opendir(d.c_str());
	if (!dp) return;
	vector<string> names;
	while (dirent *e = readdir(dp)) if (strstr(e->d_name, ".sk")) names.push_back(e->d_name);
	closedir(dp);
	std::sort(names.begin(), names.end());
	for (auto &n : names) {
		FILE *f = fopen((d + "/" + n).c_str(), "rb"); string s; char b[4096]; size_t k;
		if (!f) continue;
		while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
		fclose(f);
		v.push_back(s);
	}
}
void load_corpus(const char *dir) {
	okc = new vector<string>(); badc = new vector<string>();
	slurp_dir(string(dir) + "/ok", *okc); slurp_dir(string(dir) + "/bad", *badc);
}

static string num(uint64_t n) { return std::to_string(n); }

// ---------------------------------------------------------------- programs
struct ProgOpt { int stmts = 6; bool warn = false, uni = false, strs = true, crlf = false, bom = false, cb = false; vector<string> imports; };

// Programs over the whole language: every statement and operator, all types,
// references, aliases, namespaces, functions, imports; mostly accepted.
struct PG {
	Rng &r; const ProgOpt &o; string p; int id = 0, depth = 0, budget; bool infn = false, inns = false;
	struct V { string name; bool mut; };
	enum { INT, FLT, BOOL, RUNE, STR, NT };
	struct Scope { vector<V> v[NT]; };
	vector<Scope> sc;
	struct F { string name; vector<int> params; int ret; };
	vector<F> fns;
	PG(Rng &r_, const ProgOpt &o_) : r(r_), o(o_), budget(o_.stmts) { sc.emplace_back(); }
	static const char *tn(int t) { static const char *n[] = { "Int", "Float", "Bool", "Rune", "Str" }; return n[t]; }
	string nm(const char *pre) {
		string n = string(pre) + num((uint64_t)id++);
		if (r.chance(3)) n += "_" + string((size_t)r.range(5, 300), 'q');
		return n;
	}
	string ind() { return string((size_t)depth, '\t'); }
	void line(const string &t) { p += ind() + t + "\n"; }
	vector<V> vars(int t, bool mut_only = false) { vector<V> x; for (auto &s : sc) for (auto &v : s.v[t]) if (!mut_only || v.mut) x.push_back(v); return x; }
	string rune() {
		static const char *esc[] = { "\\n", "\\t", "\\0", "\\r", "\\x41", "x", "Z", "9", " ", "#" };
		if (o.uni && r.chance(40)) return r.chance(50) ? "'\u00e9'" : "'\U0001f480'";
		(void)esc; static const char *ok[] = { "'\\n'", "'x'", "'Z'", "'9'", "' '", "'#'" };
		return ok[r.below(6)];
	}
	string str() {
		string t = "\"";
		size_t n = r.chance(5) ? (size_t)r.range(200, 3000) : (size_t)r.below(12);
		for (size_t i = 0; i < n; i++) t += (char)('a' + r.below(26));
		if (r.chance(15)) t += "\\n";
		if (r.chance(8)) t += " # not a comment";
		if (o.uni && r.chance(40)) t += "h\u00e9llo \u6f22\u5b57 \U0001f480";
		return t + "\"";
	}
	string konst(int t) {
		switch (t) {
			case INT: switch (r.below(8)) { case 0: return "0x" + num(r.below(9999)); case 1: return "0b" + string(r.chance(50) ? "1" : "101"); case 2: return r.chance(50) ? "0" : "9223372036854775807"; case 3: return "0o17"; case 4: return "1_000"; default: return num(r.below(1000)); }
			case FLT: return num(r.below(1000)) + "." + num(1 + r.below(99));
			case BOOL: return r.chance(50) ? "true" : "false";
			case RUNE: return rune();
			default: return str();
		}
	}
	string atom(int t, int d) {
		auto v = vars(t);
		if (!v.empty() && r.chance(55)) return r.pick(v).name;
		if (d > 0 && r.chance(15)) { vector<F> c; for (auto &f : fns) if (f.ret == t) c.push_back(f); if (!c.empty()) return call(r.pick(c), d - 1); }
		return konst(t);
	}
	string call(const F &f, int d) { string t = f.name + "("; for (size_t i = 0; i < f.params.size(); i++) t += (i ? ", " : "") + expr(f.params[i], d); return t + ")"; }
	string nzi() { return num(1 + r.below(50)); }
	string expr(int t, int d) {
		if (d <= 0 || r.chance(35)) return atom(t, d);
		if (r.chance(12)) return "(" + expr(t, d - 1) + ")";
		switch (t) {
			case INT: switch (r.below(9)) {
				case 0: return atom(INT, 0) + " + " + expr(INT, d - 1);
				case 1: return atom(INT, 0) + " - " + atom(INT, 0);
				case 2: return atom(INT, 0) + " * " + nzi();
				case 3: return atom(INT, 0) + " / " + nzi();
				case 4: return atom(INT, 0) + " mod " + nzi();
				case 5: return atom(INT, 0) + " << " + num(r.below(8));
				case 6: return atom(INT, 0) + " >> " + num(r.below(8));
				case 7: return num(1 + r.below(9)) + " ^ " + num(1 + r.below(5));
				default: { auto v = vars(INT); return v.empty() ? "- " + num(r.below(9)) : "- " + r.pick(v).name; }
			}
			case FLT: switch (r.below(6)) {
				case 0: return atom(FLT, 0) + " + " + atom(FLT, 0);
				case 1: return atom(FLT, 0) + " - " + atom(FLT, 0);
				case 2: return atom(FLT, 0) + " * " + atom(FLT, 0);
				case 3: return atom(FLT, 0) + " / " + num(1 + r.below(9)) + ".5";
				case 4: return "2.0 ^ 3.0";
				default: return "- " + num(r.below(9)) + ".25";
			}
			case BOOL: switch (r.below(8)) {
				case 0: return "not " + atom(BOOL, 0);
				case 1: return atom(BOOL, 0) + " and " + atom(BOOL, 0);
				case 2: return atom(BOOL, 0) + " or " + atom(BOOL, 0);
				case 3: return atom(BOOL, 0) + " xor " + atom(BOOL, 0);
				case 4: { static const char *c[] = { "<", ">", "<=", ">=", "is", "isnt" }; int q = r.chance(60) ? INT : FLT; return atom(q, 0) + " " + c[r.below(6)] + " " + atom(q, 0); }
				case 5: return atom(RUNE, 0) + (r.chance(50) ? " is " : " isnt ") + atom(RUNE, 0);
				case 6: return atom(STR, 0) + " is " + atom(STR, 0);
				default: return atom(BOOL, 0) + (r.chance(50) ? " is " : " isnt ") + atom(BOOL, 0);
			}
			default: return atom(t, d);
		}
	}
	void use(int t, const string &n) { // so that only intended warnings appear
		switch (t) {
			case BOOL: line("if " + n + " {"); break;
			case INT: line("if " + n + " is " + num(r.below(9)) + " {"); break;
			case FLT: line("if " + n + " < 2.5 {"); break;
			case RUNE: line("if " + n + " is 'y' {"); break;
			default: line("if " + n + " is \"x\" {"); break;
		}
		line("\tnoop"); line("}");
	}
	void block(int n) { depth++; sc.emplace_back(); line("noop"); for (int i = 0; i < n && budget > 0; i++) stmt(); sc.pop_back(); depth--; }
	void var(bool unused) {
		int t = (int)r.below(NT); string n = nm("v"); bool mut = r.chance(35);
		string ty = r.chance(25) ? ": " + string(tn(t)) + " = " : " := ";
		line(string(mut ? "mut " : "") + n + ty + expr(t, 2));
		if (mut) line(n + " = " + expr(t, 1));
		if (!unused) use(t, n);
		sc.back().v[t].push_back({ n, mut });
	}
	void fn() {
		F f; f.name = nm("f"); int np = (int)r.below(4); for (int i = 0; i < np; i++) f.params.push_back((int)r.below(NT));
		f.ret = r.chance(70) ? (int)r.below(NT) : -1;
		string t = string(!depth && r.chance(10) ? "export " : "") + f.name + "("; Scope ns;
		for (size_t i = 0; i < f.params.size(); i++) { string n = nm("p"); t += (i ? ", " : "") + n + ": " + tn(f.params[i]); ns.v[f.params[i]].push_back({ n, false }); }
		line(t + ")" + (f.ret >= 0 ? string(" ") + tn(f.ret) : "") + " {");
		auto save = sc; bool si = infn; infn = true;
		sc.clear(); sc.push_back(ns); depth++;
		for (int t2 = 0; t2 < NT; t2++) for (auto &v : ns.v[t2]) use(t2, v.name);
		int n = (int)r.below(3); for (int i = 0; i < n && budget > 0; i++) stmt();
		if (f.ret >= 0) line("return " + expr(f.ret, 2)); else if (r.chance(40)) line("return"); else line("noop");
		depth--; sc = save; infn = si;
		line("}");
		if (f.ret < 0) line(call(f, 1));
		else { string v = nm("r"); line(v + " := " + call(f, 1)); use(f.ret, v); sc.back().v[f.ret].push_back({ v, false }); }
		if (!depth) fns.push_back(f);
	}
	void stmt() {
		budget--;
		bool w = o.warn && r.chance(30);
		switch (r.below(24)) {
			case 0: case 1: case 2: case 3: case 4: var(false); break;
			case 5: case 6: if (!infn && (!depth || (depth < 2 && r.chance(5)))) fn(); else var(false); break;
			case 7: case 8:
				line("if " + cond() + " {"); block((int)r.below(3)); line("}");
				if (r.chance(35)) { line("elif " + cond() + " {"); block((int)r.below(2)); line("}"); }
				if (r.chance(45)) { line("else {"); block((int)r.below(2)); line("}"); }
				break;
			case 9: case 10: {
				string n = nm("w"); line("mut " + n + " := 0"); line("while " + n + " < " + num(1 + r.below(9)) + " {");
				depth++; sc.emplace_back(); line(n + " = " + n + " + 1");
				if (r.chance(40)) { line("if " + n + " is " + num(r.below(9)) + " {"); line(r.chance(50) ? "\tbreak" : "\tcontinue"); line("}"); }
				int k = (int)r.below(2); for (int i = 0; i < k && budget > 0; i++) stmt();
				sc.pop_back(); depth--; line("}"); break;
			}
			case 11: line("# comment " + num((uint64_t)id++) + (o.uni ? " \u2192 \u00fc" : "")); break;
			case 12: line("#{ block\ncomment " + num((uint64_t)id++) + " #}"); break;
			case 13: case 14: { // references
				int t = r.chance(70) ? INT : (int)r.below(NT); string a = nm("a"), b = nm("b"), c = nm("c");
				line("mut " + a + " := " + konst(t)); line(a + " = " + konst(t));
				line(b + (r.chance(50) ? " := &" : string(": &") + tn(t) + " = &") + a); line(c + " := *" + b); use(t, c); use(t, a);
				sc.back().v[t].push_back({ a, true }); break;
			}
			case 15: if (!depth) { // aliases
				int t = (int)r.below(NT); string a = nm("t"); line(a + " := " + tn(t));
				string b = a; if (r.chance(30)) { b = nm("t"); line(b + " := " + a); }
				string v = nm("v"); line(v + ": " + b + " = " + konst(t)); use(t, v);
				if (r.chance(40)) { string f = nm("f"), q = nm("p"); line(f + "(" + q + ": " + b + ") " + a + " {"); line("\treturn " + q); line("}"); string u = nm("r"); line(u + " := " + f + "(" + konst(t) + ")"); use(t, u); }
			} else var(false); break;
			case 16: if (!depth) { // namespaces
				string n = nm("n"), m = nm("n"), v = nm("v"), f = nm("f"), t = nm("t");
				line("namespace " + n + " {"); line("\tnamespace " + m + " {"); line("\t\tmut " + v + " := 1"); line("\t\t" + f + "() Int { return 3 }"); line("\t}"); line("\t" + t + " := Int"); line("}");
				string q = n + "." + m + "."; line(q + v + " = " + num(r.below(99)));
				string u = nm("r"); line(u + " := " + q + f + "()"); use(INT, u);
				string x = nm("x"); line(x + ": " + n + "." + t + " = " + num(r.below(9))); use(INT, x); use(INT, q + v);
			} else var(false); break;
			case 17: if (!depth) { // the outside world
				string e = nm("ext");
				switch (r.below(3)) {
					case 0: line("external " + e + "(s: Str)"); line(e + "(" + konst(STR) + ")"); break;
					case 1: { line("external " + e + "(n: Int) Int"); string u = nm("r"); line(u + " := " + e + "(" + expr(INT, 1) + ")"); use(INT, u); break; }
					default: { line("external " + e + "() Int"); string u = nm("r"); line(u + " := " + e + "()"); use(INT, u); break; }
				}
			} else line("noop"); break;
			case 18: if (!depth) { int t = r.chance(50) ? INT : (int)r.below(NT); string e = nm("g"); line("export " + e + " := " + konst(t)); use(t, e); sc.back().v[t].push_back({ e, false }); } else var(false); break;
			case 19: if (!depth) { string f = nm("u"); line(f + "() {"); line("\tunreachable"); line("}"); line("if false {"); line("\t" + f + "()"); line("}"); } else line("noop"); break;
			case 20: { auto v = vars(INT, true); if (!v.empty()) { string n = r.pick(v).name; line(n + " = " + n + " + " + num(1 + r.below(5))); } else line("noop"); break; }
			case 21: if (!depth && r.chance(30)) { string f = nm("k"), q = nm("p"); line(f + "(" + q + ": Int) Int {"); line("\tif " + q + " < 1 {"); line("\t\treturn 1"); line("\t}"); line("\treturn " + q + " * 2"); line("}"); string u = nm("r"); line(u + " := " + f + "(4)"); use(INT, u); } else var(false); break;
			default: line("noop"); break;
		}
		if (w) switch (r.below(6)) {
			case 0: line(nm("x") + " := 1"); break;
			case 1: line("mut " + nm("y") + " := " + num(r.below(5))); break;
			case 2: line("if true {"); line("\tnoop"); line("}"); break;
			case 3: if (!depth) { line(nm("z") + "() {"); line("\tnoop"); line("}"); } break;
			case 4: var(true); break;
			default: if (!depth) line("external " + nm("e") + "(a: Int)"); break;
		}
	}
	string cond() { return expr(BOOL, 2); }
};
static string gen_program(Rng &r, const ProgOpt &o) {
	PG g(r, o);
	for (auto &m : o.imports) g.p += "import " + m + "\n";
	while (g.budget > 0) g.stmt();
	if (!r.chance(15)) g.line("return " + (r.chance(30) ? num(r.below(100)) : g.expr(PG::INT, 2)));
	string p = g.p;
	if (p.empty()) p = "noop\n";
	if (o.crlf) { string q; for (char c : p) { if (c == '\n') q += '\r'; q += c; } p = q; }
	if (o.bom) p = "\xef\xbb\xbf" + p;
	return p;
}
string gen_sample(uint64_t seed) {
	Rng r(seed); ProgOpt o; o.stmts = r.range(1, 30); o.uni = r.chance(30); o.warn = r.chance(30);
	return gen_program(r, o);
}

struct Prog { string text; int kind; };
struct WOpt {
	int modes = 0x3f;            // bit per mode below
	int pvalid = 100, pinvalid = 0;   // per cent
	int imports = 0;
	bool exotic = true, bigger = false, hugeok = false; int remarks = 1;
	int pwarn = 40;
	bool outopt = true, werror = true;
	bool slow = true;            // optimisation levels
};

static Prog gen_text(Rng &r, const WOpt &w, const vector<string> &imports) {
	Prog g;
	bool inval = (int)r.below(100) < w.pinvalid;
	if (inval) {
		g.kind = PK_INVALID;
		string bad = r.pick(*badc);
		if (r.chance(50)) {
			// a valid beginning, then the mistake (at top level, after complete statements)
			ProgOpt o; o.stmts = r.range(0, 6); o.warn = r.chance(60); o.imports = imports;
			string pre = gen_program(r, o);
			pre = pre.substr(0, pre.rfind("return"));
			g.text = pre + "undeclared_name_" + num(r.below(99)) + " = 1\n" + bad;
		}
		else { g.text = ""; for (auto &m : imports) g.text += "import " + m + "\n"; g.text += bad; }
		return g;
	}
	g.kind = PK_VALID;
	if (imports.empty() && r.chance(25)) {
		g.text = r.pick(*okc);
		if (g.text.empty()) g.kind = PK_EMPTY;
		return g;
	}
	ProgOpt o;
	o.imports = imports;
	o.warn = (int)r.below(100) < w.pwarn; o.uni = r.chance(30); o.bom = r.chance(5);
	int sz = (int)r.below(100);
	o.stmts = sz < 55 ? r.range(0, 8) : sz < 85 ? r.range(10, 40) : r.range(60, 180);
	if (w.bigger) o.stmts = sz < 35 ? r.range(0, 8) : sz < 75 ? r.range(30, 120) : r.range(150, 500);
	if (w.hugeok && r.chance(4)) o.stmts = r.range(900, 2000);
	g.text = gen_program(r, o);
	if (r.chance(10)) g.text += "# " + string(r.below(9000), 'c') + "\n";
	if (r.chance(w.remarks) && !o.bom) {   // a lot of remarks before the program
		size_t n = ((size_t)1 << r.range(16, 20)) * (size_t)(r.chance(30) ? 3 : 2) / 2 + (size_t)r.range(0, 5); string c;
		while (c.size() + 80 < n) c += "# " + string(70, 'r') + "\n";
		g.text = c + g.text;
	}
	return g;
}

static const char *env_pool[] = { "HOME=/home/u", "TMPDIR=/tmp", "LANG=en_US.UTF-8", "LC_ALL=C", "LANG=C", "LC_CTYPE=xx_YY", "TERM=xterm", "CC=false", "PWD=/somewhere/else", "MALLOC_CHECK_=3", "SKULL=1", "USER=u", "TZ=Asia/Tokyo", "LC_ALL=POSIX", "SOURCE_DATE_EPOCH=0", "COLUMNS=20", "XDG_CACHE_HOME=/tmp", "NO_COLOR=1", "CLICOLOR_FORCE=1", "FORCE_COLOR=1", "DEBUG=1", "VERBOSE=1", "SKULL_FLAGS=-O3", "SKULL_PATH=/tmp", "CFLAGS=-g", "LDFLAGS=-static", "OPT=3", "CI=true", "LANGUAGE=de", "LC_NUMERIC=de_DE.UTF-8", "POSIXLY_CORRECT=1", "TMP=/w", "SHELL=/bin/false", "LOGNAME=root" };

static void gen_env(Rng &r, CmdSpec &c) {
	c.env.clear();
	c.env.push_back(r.chance(80) ? "PATH=/usr/local/bin:/usr/bin:/bin" : "PATH=/usr/bin:/bin:/nonexistent");
	int n = (int)r.below(5);
	for (int i = 0; i < n; i++) c.env.push_back(env_pool[r.below(sizeof env_pool / sizeof *env_pool)]);
}
static void gen_cfg(Rng &r, Config &c) {
	c.seed = r.next() >> 8;
	c.fill = (uint32_t)r.below(7); c.gap = (uint32_t)(r.chance(70) ? r.below(3) : r.chance(40) ? 3 : 0); c.reuse = (uint32_t)(r.chance(50) ? 0 : 1 + r.below(2));
	if (c.gap == 3) c.reuse = 0;
	c.stackfill = (uint32_t)r.below(4);
	static const uint32_t bs[] = { 4096, 4096, 512, 1024, 65536, 1, 100 };
	c.blksize = bs[r.below(7)];
	c.pidbase = r.chance(50) ? 2000 : r.range(3, 4000000);
	static const uint64_t ck[] = { 1700000000ULL, 0, 4102444800ULL, 915148800ULL, 2147483647ULL };
	c.clock0 = ck[r.below(5)] * 1000000000ULL + r.below(1000000000);
	if (r.chance(35)) c.shortio = (uint32_t)(r.chance(50) ? 1000 : r.range(50, 900));
}
static void gen_io(Rng &r, CmdSpec &c) {
	c.sk_out = (int)r.below(3); c.sk_err = (int)r.below(3);
	c.fdpad = r.chance(40) ? r.range(1, 20) : 0;
	c.sk_in = r.chance(60) ? -1 : (int)r.below(4);
	// LLVM's output stream never closes a descriptor <= 2, so an embedding program must not run with those closed
	if (c.kind == CMD_HOST && c.sk_in == SK_CLOSED) c.sk_in = -1;
	gen_env(r, c);
}

static string q3(uint64_t n) { return num(n); }

static string gen_base(Rng &r, bool exotic) {
	static const char *plain[] = { "a", "main", "prog", "hello_world", "x1", "Test", "lib-util", "z" };
	static const char *ex[] = { "two words", "dots.in.name", "\u00fcn\u00ef", "quote's", "dollar$HOME", "back`tick", "semi;colon", "amp&and", "dq\"uote", "paren(1)", "star*", "tilde~", "hash#tag", "a.sk.b", "sk", "x.sk.bak", "percent%s%n", "back\\slash", ".hidden" };
	if (!exotic || r.chance(72)) return plain[r.below(8)];
	if (r.chance(8)) return string(r.range(120, 252), 'n');
	return ex[r.below(sizeof ex / sizeof *ex)];
}

struct Work { vector<FileSpec> files; CmdSpec cmd; string src_abs; vector<string> imports; int kind; };

static FileSpec mkf(const string &p, const string &d, int mode = 0644) { FileSpec f; f.path = p; f.data = d; f.mode = mode; return f; }
static FileSpec mkd(const string &p, int mode = 0755) { FileSpec f; f.path = p; f.type = T_DIR; f.mode = mode; return f; }

// how a path may be written from a given working directory
static string spell(Rng &r, const string &cwd, const string &abs) {
	string dir = dirname_of(abs), base = abs.substr(abs.rfind('/') + 1);
	if (r.chance(15)) return abs;
	if (dir == cwd) return r.chance(70) ? base : r.chance(50) ? "./" + base : cwd == "/" ? "./" + base : ".." + cwd.substr(cwd.rfind('/')) + "/" + base;
	if (cwd == "/") return r.chance(60) ? abs.substr(1) : "." + abs;
	if (abs.compare(0, cwd.size() + 1, cwd + "/") == 0) {
		string rest = abs.substr(cwd.size() + 1);
		if (r.chance(20)) { size_t k = rest.find('/'); rest = rest.substr(0, k) + "/" + rest.substr(k); }
		return r.chance(60) ? rest : "./" + rest;
	}
	return abs;
}

enum { W_LINK = 1, W_OBJ = 2, W_ASM = 4, W_LL = 8, W_C = 16, W_CE = 32 };

static vector<string> gen_opts(Rng &r, const WOpt &w, const string &dir_abs, const string &cwd, string *extra, int tagno = 0, bool host = false) {
	vector<string> o;
	vector<int> ms; for (int b = 1; b <= 32; b <<= 1) if (w.modes & b) ms.push_back(b);
	int mode = r.pick(ms);
	switch (mode) {
		case W_OBJ: o = { "-c" }; break;
		case W_ASM: o = { "-S" }; break;
		case W_LL: o = { "-E" }; break;
		case W_C: o = { "--c-backend" }; break;
		case W_CE: o = { "--c-backend", "-E" }; break;
		default: break;
	}
	if (r.chance(25)) o.push_back("-g");
	if (r.chance(10)) o.push_back("-q");
	else if (w.werror && r.chance(6)) o.push_back("--werror");
	if (w.slow && r.chance(15)) o.push_back(r.chance(60) ? "-O1" : r.chance(50) ? "-O2" : "-O3");
	if (r.chance(8)) o.push_back("--color");
	if (!(mode & (W_C | W_CE)) && r.chance(8)) o.push_back("--llvm-no-verify");
	(void)host;
	if (w.outopt && r.chance(40)) {
		string t;
		if ((mode & (W_ASM | W_LL | W_C | W_CE)) && r.chance(45)) t = "-";
		else {
			static const char *ext[] = { "out", "out.o", "result.txt", "bin dir name", "o.u.t", ".dotout" };
			string b = string(ext[r.below(6)]) + (tagno ? num((uint64_t)tagno) : "");
			t = r.chance(50) ? b : r.chance(50) ? abspath(cwd, dir_abs + "/" + b) : "./" + b;
		}
		o.push_back("-o"); o.push_back(t);
	}
	if (mode == W_LINK && r.chance(15) && extra) *extra = r.chance(50) ? "-no-pie -lm" : r.chance(50) ? "-no-pie" : "-L/usr/lib -O2 -Wall";
	if (mode == W_LINK && r.chance(w.exotic ? 6 : 3) && extra) {   // a long command line for the linker
		string t; int total = r.chance(60) ? (1 << r.range(6, 11)) + r.range(-60, 4) : r.range(100, 2400), nw = r.range(1, 5);
		for (int i = 0; i < nw; i++) { string d = "-L/usr/lib/"; int k = std::min(total / nw, 1200); while ((int)d.size() < k) d += d.size() % 40 == 39 ? '/' : (char)('a' + r.below(26)); t += (i ? " " : "") + d; }
		*extra = t;
	}
	return o;
}

static Work gen_work(Rng &r, const WOpt &w) {
	Work k;
	static const char *dirs[] = { "/w", "/w", "/w", "/w/sub", "/w/sub/deep", "/home/u", "/" };
	static const char *cwds[] = { "/w", "/w", "/w", "/w/sub", "/", "/home/u" };
	string dir = dirs[r.below(7)];
	if (w.exotic && r.chance(3)) {   // far down
		int total = r.chance(60) ? (1 << r.range(7, 9)) + r.range(-40, 4) : r.range(150, 900);
		dir = "/w"; while ((int)dir.size() < total) dir += "/" + string((size_t)std::min(total - (int)dir.size() < 2 ? 1 : total - (int)dir.size() - 1, r.range(20, 200)), (char)('a' + r.below(26)));
		k.files.push_back(mkd(dir));
	}
	k.cmd.cwd = r.chance(60) ? dir : cwds[r.below(6)];
	k.files.push_back(mkd("/w/sub/deep"));
	string base = gen_base(r, w.exotic);
	k.src_abs = (dir == "/" ? "" : dir) + "/" + base + ".sk";
	int ni = w.imports > 0 ? r.range(0, w.imports) : 0;
	for (int i = 0; i < ni; i++) {
		string m = "mod" + q3((uint64_t)i);
		k.imports.push_back(m);
		k.files.push_back(mkf((dir == "/" ? "" : dir) + "/" + m + ".sk", "q" + num(i) + " := 1\n"));
	}
	Prog p = gen_text(r, w, k.imports);
	k.kind = p.kind;
	FileSpec s = mkf(k.src_abs, p.text); s.kind = p.kind;
	k.files.push_back(s);
	// unrelated files around
	if (r.chance(50)) k.files.push_back(mkf((dir == "/" ? "" : dir) + "/notes.txt", "keep me " + num(r.below(1000))));
	if (r.chance(30)) k.files.push_back(mkf((dir == "/" ? "" : dir) + "/other.sk", "return 3\n"));
	string extra;
	vector<string> o = gen_opts(r, w, dir, k.cmd.cwd, &extra);
	string sp = spell(r, k.cmd.cwd, k.src_abs);
	if (sp[0] == '-') sp = "./" + sp;
	vector<string> av = { "skull" };
	size_t at = r.below(o.size() + 1);
	// never between -o and its value
	if (at > 0 && at <= o.size() && o[at - 1] == "-o") at--;
	for (size_t i = 0; i < o.size(); i++) { if (i == at) av.push_back(sp); av.push_back(o[i]); }
	if (at == o.size()) av.push_back(sp);
	if (!extra.empty()) {
		av.push_back("--");
		string c; for (char ch : extra + " ") { if (ch == ' ') { if (!c.empty()) av.push_back(c); c.clear(); } else c += ch; }
	}
	k.cmd.argv = av;
	gen_io(r, k.cmd);
	return k;
}

// a program made of equal units, one long name and one long string: what its output must contain can be counted
// without knowing how code is generated. Its size lies around the round numbers buffers tend to have.
static string gen_counted(Rng &r, bool th) {
	int n = r.chance(50) ? r.range(2, 12) : r.chance(80) ? r.range(20, 120) : r.range(150, th ? 600 : 420);
	size_t L = (size_t)(r.chance(60) ? r.range(1, 40) : r.chance(50) ? (1 << r.range(5, 11)) - r.range(0, 6) : r.range(60, 3000));
	size_t M = (size_t)(r.chance(50) ? r.range(1, 60) : r.chance(60) ? (1 << (r.chance(30) ? r.range(14, 17) : r.range(6, 15))) - r.range(-1, 3) : r.range(60, 5000));
	char num5[8];
	string t = "# counted " + num(n) + " " + num(L) + " " + num(M) + "\n";
	vector<string> us;
	for (int k = 0; k < n; k++) {
		snprintf(num5, sizeof num5, "%05d", k);
		string id = string("_") + num5 + "_q", c = num(3000003 + k);
		us.push_back("f" + id + "(x: Int) Int {\n\tv" + id + " := x + " + num(1000003 + k) + "\n\tif v" + id + " is x { return " + num(2000003 + k) + " }\n\treturn v" + id + "\n}\nif f" + id + "(" + num(k) + ") is 0 { noop }\ns" + id + " := \"str" + c + "\"\nif s" + id + " is \"x\" { noop }\n");
	}
	us.insert(us.begin() + (long)r.below(us.size() + 1), "l_" + string(L, 'a') + "_q := \"" + string(M, 'b') + "\"\nif l_" + string(L, 'a') + "_q is \"y\" { noop }\n");
	size_t have = t.size(); for (auto &u : us) have += u.size();
	string pad;
	if (r.chance(70)) {
		static const size_t round[] = { 1024, 2048, 4096, 8192, 16384, 32768, 65536, 65536, 131072, 262144, 1 << 20 };
		size_t T = round[r.below(r.chance(80) || n > 40 ? 9 : 11)] + (size_t)r.range(0, 4) - 2;
		if (T > have + 8) {
			size_t w = T - have;
			switch (r.below(4)) {
				case 0: pad = "# " + string(w - 3, 'c') + "\n"; break;
				case 1: pad = string(w, '\n'); break;
				case 2: pad = "#{" + string(w - 5, 'd') + "#}\n"; break;
				default: while (pad.size() + 60 < w) pad += "# " + string(50, 'e') + "\n"; pad += string(w - pad.size(), '\n'); break;
			}
		}
	}
	size_t at = r.chance(60) ? us.size() - 1 : r.below(us.size() + 1);
	for (size_t i = 0; i <= us.size(); i++) { if (i == at) t += pad; if (i < us.size()) t += us[i]; }
	if (r.chance(25)) t.pop_back();
	return t;
}
static bool make_counted(Rng &r, Work &k, bool th) {
	Model m = model_of(k.cmd);
	if (!k.imports.empty() || m.opt || m.mode == MO_LINK || m.mode == MO_NONE || m.bad || m.werror) return false;
	for (auto &f : k.files) if (f.path == k.src_abs) { f.data = gen_counted(r, th); f.kind = k.kind = PK_VALID; }
	return true;
}

// older files at the places the command writes to
static void leftovers(Rng &r, Work &k) {
	Model m = model_of(k.cmd);
	for (auto &p : m.allowed) {
		if (p.compare(0, 5, "/dev/") == 0) continue;
		if (!r.chance(60)) continue;
		bool have = false; for (auto &f : k.files) if (f.path == p) have = true;
		if (have) continue;
		string d;
		switch (r.below(5)) {
			case 0: break;
			case 1: d = string(r.below(9000), 'Z'); break;
			case 2: d = "\177ELF\2\1\1" + string(r.below(300), '\0'); break;
			case 3: d = string(200000, 'L'); break;
			default: d = "old contents\n"; break;
		}
		k.files.push_back(mkf(p, d, r.chance(50) ? 0644 : 0755));
	}
}

// ------------------------------------------------------------------ faults
static int pick_errno(Rng &r, int cls, bool finite) {
	static const vector<int> E_open = { EMFILE, ENFILE, EACCES, EIO, ENOENT, ENOMEM, ENOSPC, ELOOP, EROFS, EINTR, EPERM, ESTALE, EDQUOT },
		E_read = { EIO, EIO, ESTALE, EINTR, ENOMEM, EISDIR }, E_write = { EIO, ENOSPC, ENOSPC, EDQUOT, EFBIG, ESTALE, EROFS }, E_out = { EIO, ENOSPC, EPIPE, EBADF },
		E_close = { EIO, ENOSPC, EDQUOT, EINTR }, E_seek = { EIO, ESPIPE, EINVAL, EOVERFLOW }, E_stat = { EIO, EACCES, ENOENT, EOVERFLOW, ENOMEM },
		E_unlink = { EACCES, EBUSY, EIO, EROFS, EPERM }, E_fork = { EAGAIN, ENOMEM }, E_exec = { ENOENT, EACCES, ENOMEM, E2BIG, ETXTBSY, ENOEXEC, EIO },
		E_wait = { EINTR, ECHILD }, E_mmap = { ENOMEM, EACCES }, E_misc = { EIO, EPERM, EACCES }, E_cwd = { ENOENT, EACCES };
	(void)finite;
	switch (cls) {
		case C_OPEN: return r.pick(E_open); case C_READ: return r.pick(E_read); case C_WRITE: return r.pick(E_write);
		case C_OUT: case C_ERR: return r.pick(E_out); case C_CLOSE: return r.pick(E_close); case C_SEEK: return r.pick(E_seek);
		case C_STAT: return r.pick(E_stat); case C_UNLINK: return r.pick(E_unlink); case C_FORK: return r.pick(E_fork); case C_EXEC: return r.pick(E_exec);
		case C_WAIT: return r.pick(E_wait); case C_MMAP: return r.pick(E_mmap); case C_CWD: return r.pick(E_cwd);
		default: return r.pick(E_misc);
	}
}
static Fault mkfault(int key, int cls, int kind, int nth, int a = 0, int b = 0, int sticky = 0) {
	Fault f; memset(&f, 0, sizeof f);
	f.key = (int16_t)key; f.cls = (uint8_t)cls; f.kind = (uint8_t)kind; f.nth = nth; f.a = a; f.b = b; f.sticky = (uint8_t)sticky;
	return f;
}
// An error in one of the classes at a call the undisturbed run makes (or one
// just past its end).
static bool err_fault(Rng &r, const Outcome &base, const vector<int> &cls, const vector<int> &keys, Fault &f, int psticky = 15) {
	vector<std::pair<int, int>> c;
	for (int k : keys) { const ProcOut *p = base.proc(k); if (p) for (int x : cls) if (p->cnt[x]) c.push_back({ k, x }); }
	if (c.empty()) return false;
	auto s = c[r.below(c.size())];
	int n = (int)base.proc(s.first)->cnt[s.second];
	int nth = (int)r.below((uint64_t)n);
	if (r.chance(25)) nth = n - 1;
	int e = pick_errno(r, s.second, true);
	int st = (int)r.below(100) < psticky && e != EINTR && (e != EAGAIN || s.second == C_FORK);
	f = mkfault(s.first, s.second, F_ERR, nth, e, 0, st);
	if (s.second == C_WAIT && e == EINTR) f.b = (int)r.below(2);
	if (s.second == C_CLOSE && e != EINTR && r.chance(50)) f.b = 2;   // and the data is lost with it
	return true;
}
static vector<int> prockeys(const Outcome &o) { vector<int> v; for (auto &p : o.procs) v.push_back(p.key); return v; }
// what an earlier, interrupted or different run may have left: as long as the real output, or a piece of it
static bool twin_leftovers(Rng &r, Scen &s, const Model &m, const Outcome &b) {
	bool any = false;
	for (auto &p : m.allowed) {
		auto it = b.fs.find(p);
		if (it == b.fs.end() || it->second.type != T_FILE || p == m.src_abs || it->second.data.empty()) continue;
		bool have = false; for (auto &f : s.files) if (f.path == p) have = true;
		if (have) continue;
		string d = it->second.data; size_t k = (size_t)r.below(d.size());
		switch (r.below(6)) {
			case 0: d.assign(d.size(), '\0'); break;
			case 1: for (size_t i = k; i < d.size(); i++) d[i] = 0; break;
			case 2: d.resize(k); break;
			case 3: d[k] = (char)(d[k] ^ (1 + r.below(255))); break;
			case 4: d += string((size_t)r.range(1, 5000), 'T'); break;
			default: d.back() = (char)(d.back() ^ 1); break;
		}
		s.files.push_back(mkf(p, d, r.chance(50) ? 0644 : 0755)); any = true;
	}
	return any;
}
static Fault kill_fault(Rng &r, const Outcome &base, int key, bool power) {
	const ProcOut *p = base.proc(key);
	int n = p ? (int)p->cnt[C_ANY] : 1;
	static const int sg[] = { SIGKILL, SIGTERM, SIGINT, SIGHUP, SIGKILL };
	int nth = (int)r.below((uint64_t)(n > 0 ? n : 1));
	if (power) return mkfault(key, C_ANY, F_POWER, nth);
	// prefer points where files are in flight
	if (p && r.chance(50)) {
		vector<int> c; for (int x : { C_WRITE, C_UNLINK, C_FORK, C_EXEC, C_WAIT, C_CLOSE, C_OPEN }) if (p->cnt[x]) c.push_back(x);
		if (!c.empty()) { int x = r.pick(c); return mkfault(key, x, r.chance(50) ? F_KILL : F_KILL_AFTER, (int)r.below(p->cnt[x]), sg[r.below(5)]); }
	}
	return mkfault(key, C_ANY, r.chance(50) ? F_KILL : F_KILL_AFTER, nth, sg[r.below(5)]);
}

static void put_work(Scen &s, Work &k, Rng &r) {
	s.files = k.files;
	s.phases.emplace_back();
	gen_cfg(r, s.phases[0].cfg);
	s.phases[0].cmds.push_back(k.cmd);
}

// ------------------------------------------------------- one per property
static void g_c01(Rng &r, bool th, Scen &s) {
	WOpt w; w.hugeok = th; w.imports = 1; w.bigger = r.chance(30); w.pinvalid = 4;
	Work k = gen_work(r, w);
	int v = (int)r.below(100);
	if (r.chance(17)) make_counted(r, k, th);
	if (r.chance(25)) leftovers(r, k);
	if (v < 8) { // places that cannot be written
		Model m = model_of(k.cmd);
		s.variant = "unwritable";
		auto clear = [&](const string &q) { for (size_t i = 0; i < k.files.size(); ) if (k.files[i].path == q) k.files.erase(k.files.begin() + (long)i); else i++; };
		switch (r.below(5)) {
			case 0: // a device that is always full
				for (size_t i = 1; i < k.cmd.argv.size(); i++) if (k.cmd.argv[i] == "-o") { k.cmd.argv.erase(k.cmd.argv.begin() + (long)i, k.cmd.argv.begin() + (long)i + 2); break; }
				k.cmd.argv.insert(k.cmd.argv.begin() + 1, { "-o", "/dev/full" });
				break;
			case 1: if (!m.out_abs.empty() && !m.to_stdout) { clear(m.out_abs); k.files.push_back(mkd(m.out_abs)); } break;
			case 2: if (!m.out_abs.empty() && !m.to_stdout && m.mode != MO_LINK) { clear(m.out_abs); k.files.push_back(mkf(m.out_abs, "protected", 0444)); } break;
			case 3: clear(dirname_of(k.src_abs)); k.files.push_back(mkd(dirname_of(k.src_abs), 0555)); break;
			default:
				for (size_t i = 1; i < k.cmd.argv.size(); i++) if (k.cmd.argv[i] == "-o") { k.cmd.argv.erase(k.cmd.argv.begin() + (long)i, k.cmd.argv.begin() + (long)i + 2); break; }
				k.cmd.argv.insert(k.cmd.argv.begin() + 1, { "-o", "no/such/dir/x" });
		}
		put_work(s, k, r);
		return;
	}
	put_work(s, k, r);
	PhaseSpec &p = s.phases[0];
	if (v < 11) { s.variant = "no-stdout"; p.cmds[0].sk_out = SK_CLOSED; if (r.chance(20)) p.cmds[0].sk_in = SK_CLOSED; return; }
	if (v < 20) { s.variant = "benign"; if (!p.cfg.shortio) p.cfg.shortio = 1000; return; }
	const Outcome &b = ref_run(s.files, k.cmd);
	if (!b.ok) return;
	if (v < 35) {
		s.variant = "disk-full";
		uint64_t tot = 0; Model m = model_of(k.cmd);
		for (auto &q : m.allowed) { auto it = b.fs.find(q); if (it != b.fs.end()) tot += it->second.data.size(); }
		if (r.chance(50)) p.cfg.disk = (int64_t)r.below(tot + tot / 4 + 10);
		else { const ProcOut *q = b.proc(1); p.faults.push_back(mkfault(1, C_ANY, F_DISK, (int)r.below(q ? q->cnt[C_ANY] : 1), (int)r.below(tot + 10))); }
		return;
	}
	s.variant = "io-error";
	int n = r.chance(70) ? 1 : r.range(2, 5);
	for (int i = 0; i < n; i++) {
		Fault f;
		vector<int> cls = { C_WRITE, C_WRITE, C_WRITE, C_OUT, C_OUT, C_CLOSE, C_CLOSE, C_OPEN };
		if (r.chance(25)) cls = { C_STAT, C_MISC, C_SEEK, C_MMAP, C_UNLINK, C_CWD };
		vector<int> keys = { 1, 1 };
		if (r.chance(25)) keys = { 9 };
		if (err_fault(r, b, cls, keys, f)) p.faults.push_back(f);
	}
	if (r.chance(30)) { // a short transfer, then whatever comes
		const ProcOut *q = b.proc(1);
		int c = q && q->cnt[C_OUT] ? C_OUT : C_WRITE;
		if (q && q->cnt[c]) p.faults.push_back(mkfault(1, c, F_SHORT, (int)r.below(q->cnt[c]), r.range(1, 600)));
	}
	for (auto &f : p.faults) if (f.a == EPIPE) p.cmds[0].sigign |= r.chance(70) ? 1ULL << SIGPIPE : 0;
}

static string mutate_text(Rng &r, const string &t) {
	switch (r.below(4)) {
		case 0: return "return " + num(r.below(200)) + "\n";
		case 1: return t + "\n# appended " + string(r.below(3000), 'k') + "\n";
		case 2: { ProgOpt o; o.stmts = r.range(1, 30); return gen_program(r, o); }
		default: { size_t k = t.rfind("return"); return (k == string::npos ? t : t.substr(0, k)) + "return 42\n"; }
	}
}

static void g_c02(Rng &r, bool th, Scen &s) {
	WOpt w; w.hugeok = th; w.remarks = 5; w.bigger = r.chance(60); w.modes = W_LL | W_C | W_OBJ | W_CE | W_LINK | W_ASM; w.imports = r.chance(15) ? 2 : 0; w.slow = false;
	Work k = gen_work(r, w);
	int v = (int)r.below(100);
	if (r.chance(12)) make_counted(r, k, th);
	for (auto &f : k.files) if (f.path == k.src_abs) {
		if (f.data.compare(0, 12, "# rrrrrrrrrr") == 0 && r.chance(60)) v = 15;
		f.tracked = 1;
		if (v >= 8 && v < 13 && !f.data.empty()) {
			s.variant = "unreadable-text"; f.kind = PK_INVALID;
			static const char *junk[] = { "\xff", "\xc3\n", "\xc0\xaf", "\xed\xa0\x80", "\x80", "\xf0\x9f\x98", "\xe2\x82" };
			string j = r.chance(50) ? string(1, '\0') : junk[r.below(7)];
			size_t at = r.chance(30) ? f.data.size() : r.chance(20) ? 0 : r.below(f.data.size() + 1);
			while (at > 0 && at < f.data.size() && ((uint8_t)f.data[at] & 0xc0) == 0x80) at--;
			if (at && f.data.compare(0, 3, "\xef\xbb\xbf") == 0 && at < 3) at = 3;
			f.data.insert(at, j);
			put_work(s, k, r);
			if (r.chance(40)) s.phases[0].cfg.shortio = 700;
			return;
		}
		if (v < 8) {
			s.variant = "odd-source";
			switch (r.below(5)) {
				case 0: f.mode = 0; break;
				case 1: f.mode = 0200; break;
				case 2: f.type = T_DIR; f.data = ""; f.mode = 0755; f.tracked = 0; break;
				case 3: f.data = ""; f.kind = PK_EMPTY; break;
				default: f.data = ""; f.kind = PK_EMPTY; f.mode = 0444; break;
			}
			if (r.chance(25)) { k.files.erase(k.files.begin() + (&f - k.files.data())); }
			put_work(s, k, r);
			return;
		}
	}
	put_work(s, k, r);
	PhaseSpec &p = s.phases[0];
	if (v < 18) { s.variant = "short-reads"; p.cfg.shortio = r.chance(60) ? 1000 : 300; return; }
	const Outcome &b = ref_run(s.files, k.cmd);
	if (!b.ok) return;
	const ProcOut *q = b.proc(1);
	if (!q) return;
	if (v < 55) {
		s.variant = "read-error";
		int n = r.chance(75) ? 1 : 2;
		for (int i = 0; i < n; i++) {
			Fault f;
			if (r.chance(20) && q->cnt[C_READ]) { p.faults.push_back(mkfault(1, C_READ, F_EOF, (int)r.below(q->cnt[C_READ]), 0, 0, r.chance(70))); continue; }
			if (r.chance(15) && q->cnt[C_READ]) { p.faults.push_back(mkfault(1, C_READ, F_SHORT, (int)r.below(q->cnt[C_READ]), r.range(1, 3000))); if (q->cnt[C_READ] > 0) p.faults.push_back(mkfault(1, C_READ, F_ERR, 1 + (int)r.below(q->cnt[C_READ]), EIO, 0, 1)); continue; }
			if (err_fault(r, b, { C_READ, C_READ, C_READ, C_SEEK, C_SEEK, C_STAT, C_OPEN, C_CLOSE, C_MMAP }, { 1 }, f, 40)) p.faults.push_back(f);
		}
		return;
	}
	s.variant = "edited-meanwhile";
	string t; for (auto &f : k.files) if (f.path == k.src_abs) t = f.data;
	int n = r.chance(75) ? 1 : 2;
	for (int i = 0; i < n; i++) {
		EditSpec e; e.path = k.src_abs;
		switch (r.below(7)) {
			case 0: case 1: e.op = E_TRUNC; e.len = r.chance(25) ? 0 : r.below(t.size() + 1); break;
			case 2: e.op = E_APPEND; e.data = r.chance(50) ? "# more\n" : "zz := 5\n" + string(r.below(9000), '\n'); break;
			case 3: e.op = E_WRITE; e.data = mutate_text(r, t); break;
			case 4: e.op = E_REPLACE; e.data = mutate_text(r, t); break;
			case 5: e.op = E_UNLINK; break;
			default: e.op = E_CHMOD; e.len = r.chance(50) ? 0 : 0200; break;
		}
		p.edits.push_back(e);
		// somewhere around the reading of the source
		uint32_t hi = q->cnt[C_OPEN] + q->cnt[C_READ] + q->cnt[C_SEEK] + q->cnt[C_STAT] + 3;
		if (hi > q->cnt[C_ANY]) hi = q->cnt[C_ANY];
		if (r.chance(55)) {
			vector<int> c; for (int x : { C_READ, C_SEEK, C_STAT, C_CLOSE, C_OPEN }) if (q->cnt[x]) c.push_back(x);
			int x = r.pick(c);
			p.faults.push_back(mkfault(1, x, F_EDIT, (int)r.below(std::min<uint32_t>(q->cnt[x], 24)), i));
		}
		else p.faults.push_back(mkfault(1, C_ANY, F_EDIT, (int)r.below(hi ? hi : 1), i));
	}
	if (r.chance(25)) p.cfg.shortio = 700;
}

static void g_c03(Rng &r, bool, Scen &s) {
	WOpt w; w.pinvalid = 35; w.imports = 2; w.slow = r.chance(20);
	Work k = gen_work(r, w);
	if (r.chance(40)) leftovers(r, k);
	// files whose names are close to the ones the command owns
	{
		Model m = model_of(k.cmd);
		string d = dirname_of(m.src_abs), b = m.src_abs.substr(m.src_abs.rfind('/') + 1), st = b.substr(0, b.size() - 3);
		if (d == "/") d = "";
		for (string n : vector<string>{ "." + b + ".o", "." + b + ".s", "." + b + ".c", "." + b + ".ll", "." + st + ".o", st + ".o", st, "a.out", st + ".c", b + ".o", "." + b, st + ".s", st + ".ll" }) {
			if (!r.chance(35)) continue;
			string p = d + "/" + n;
			bool have = false; for (auto &f : k.files) if (f.path == p) have = true;
			if (!have && n.size() < 250 && !m.allowed.count(p)) k.files.push_back(mkf(p, "user file " + n + "\n"));
		}
		if (r.chance(20)) k.files.push_back(mkd(d + "/" + (m.mode == MO_LINK && r.chance(50) ? st : "somedir")));
	}
	put_work(s, k, r);
	PhaseSpec &p = s.phases[0];
	int v = (int)r.below(100);
	s.variant = v < 30 ? "no-fault" : v < 70 ? "error" : "kill";
	if (v < 30) return;
	const Outcome &b = ref_run(s.files, k.cmd);
	if (!b.ok) return;
	if (v < 70) {
		int n = r.range(1, 3);
		for (int i = 0; i < n; i++) {
			Fault f; vector<int> all; for (int c = 0; c < C_CC; c++) if (c != C_SYS) all.push_back(c);
			if (r.chance(20)) { const ProcOut *q = b.proc(1); if (q && q->cnt[C_ALLOC]) p.faults.push_back(mkfault(1, C_ALLOC, F_NULL, (int)r.below(q->cnt[C_ALLOC]))); }
			else if (r.chance(20) && b.proc(KID)) p.faults.push_back(mkfault(KID, C_CC, r.chance(50) ? F_CCEXIT : F_CCSIG, (int)r.below(b.proc(KID)->cnt[C_CC] + 1), r.chance(50) ? 1 : 11));
			else if (err_fault(r, b, all, prockeys(b), f)) p.faults.push_back(f);
		}
	}
	else p.faults.push_back(kill_fault(r, b, b.proc(KID) && r.chance(30) ? KID : 1, false));
}

static void g_c04(Rng &r, bool, Scen &s) {
	WOpt w; w.pinvalid = 20; w.imports = 2; w.slow = false;
	Work k = gen_work(r, w);
	if (r.chance(6)) k.cmd.argv.insert(k.cmd.argv.begin() + 1, r.chance(50) ? "--bogus" : "-z");
	put_work(s, k, r);
	s.phases[0].cfg.shortio = 0;
	const Outcome &b = ref_run(s.files, k.cmd);
	if (!b.ok) return;
	const ProcOut *q = b.proc(1);
	uint32_t n = q ? q->cnt[C_ALLOC] : 0;
	if (!n) return;
	int v = (int)r.below(100);
	PhaseSpec &p = s.phases[0];
	auto one = [&]() -> int {
		// early, late and middle allocations alike; the middle ones are many
		switch (r.below(5)) { case 0: return (int)r.below(std::min(n, 40u)); case 1: return (int)(n - 1 - r.below(std::min(n, 40u))); default: return (int)r.below(n); }
	};
	if (v < 75) { s.variant = "one"; p.faults.push_back(mkfault(1, C_ALLOC, F_NULL, one())); }
	else if (v < 88) { s.variant = "from-here-on"; p.faults.push_back(mkfault(1, C_ALLOC, F_NULL, one(), 0, 0, 1)); }
	else { s.variant = "several"; int m = r.range(2, 6); for (int i = 0; i < m; i++) p.faults.push_back(mkfault(1, C_ALLOC, F_NULL, one())); }
	p.cmds[0].sk_err = SK_PIPE;
}

static void g_c05(Rng &r, bool, Scen &s) {
	WOpt w; w.modes = W_LINK; w.imports = 1; w.slow = false; w.werror = false; w.pwarn = 40; w.pinvalid = 0;
	Work k = gen_work(r, w);
	if (r.chance(30)) leftovers(r, k);
	bool host = r.chance(40);
	if (host) {
		// an embedding program with children of its own
		Model m = model_of(k.cmd);
		vector<string> q; bool tail = false; string ex;
		for (size_t i = 1; i < k.cmd.argv.size(); i++) { if (k.cmd.argv[i] == "--") { tail = true; continue; } if (tail) ex += (ex.empty() ? "" : " ") + k.cmd.argv[i]; else q.push_back(k.cmd.argv[i]); }
		if (!ex.empty()) { q.push_back("--"); q.push_back(ex); }
		k.cmd.kind = CMD_HOST; k.cmd.argv.clear(); if (k.cmd.sk_in == SK_CLOSED) k.cmd.sk_in = -1;
		k.cmd.reqs.push_back(q);
		int n = r.range(0, 2);
		for (int i = 0; i < n; i++) k.cmd.stray.push_back({ r.chance(50) ? r.range(0, 5) : r.range(10, 200), r.chance(40) ? 0 : r.chance(60) ? r.range(1, 255) : 1000 + (r.chance(50) ? SIGKILL : SIGSEGV) });
	}
	put_work(s, k, r);
	PhaseSpec &p = s.phases[0];
	p.cfg.sched_permille = r.chance(70) ? (uint32_t)r.range(20, 600) : 0; p.cfg.sched_seed = r.next() >> 4;
	int v = (int)r.below(100);
	int ck = host ? KEYMUL + (int)k.cmd.stray.size() + 1 : KID;
	CmdSpec bc = k.cmd;
	const Outcome &b = ref_run(s.files, bc);   // without the stray children: the linker is child 9
	if (!b.ok) return;
	const ProcOut *q = b.proc(KID);
	uint32_t steps = q ? q->cnt[C_CC] : 10;
	static const int codes[] = { 1, 1, 2, 4, 64, 42, 100, 126, 127, 128, 128, 192, 129, 254, 255 };
	static const int sigs[] = { SIGKILL, SIGSEGV, SIGTERM, SIGINT, SIGABRT, SIGHUP, SIGPIPE, SIGBUS, SIGXCPU };
	if (v < 12) s.variant = "no-fault";
	else if (v < 35) { s.variant = "linker-exit"; p.faults.push_back(mkfault(ck, C_CC, F_CCEXIT, (int)r.below(steps ? steps : 1), codes[r.below(15)])); }
	else if (v < 55) { s.variant = "linker-signal"; p.faults.push_back(mkfault(ck, C_CC, F_CCSIG, (int)r.below(steps ? steps : 1), sigs[r.below(9)])); }
	else if (v < 65) { s.variant = "fork"; p.faults.push_back(mkfault(1, C_FORK, F_ERR, host ? (int)k.cmd.stray.size() : 0, r.chance(50) ? EAGAIN : ENOMEM, 0, r.chance(50))); }
	else if (v < 77) {
		s.variant = "exec"; static const int ee[] = { ENOENT, EACCES, ENOMEM, E2BIG, ETXTBSY, EIO };
		p.faults.push_back(mkfault(ck, C_EXEC, F_ERR, 0, ee[r.below(6)], 0, 1));
		if (r.chance(25)) { p.faults.clear(); s.files.push_back(mkf("/bin/sh", "\177ELF", 0644)); s.files.push_back(mkf("/usr/bin/cc", "\177ELF", 0644)); s.files.push_back(mkf("/usr/bin/sh", "\177ELF", 0644)); s.files.push_back(mkf("/bin/cc", "\177ELF", 0644)); s.variant = "no-tools"; }
	}
	else if (v < 94) {
		s.variant = "wait"; int n = r.range(1, 4), c0 = 0;
		bool echild = r.chance(25);
		for (int i = 0; i < n; i++) p.faults.push_back(mkfault(1, C_WAIT, F_ERR, c0 + i, echild && i == n - 1 ? ECHILD : EINTR, echild && i == n - 1 ? 0 : (int)r.below(2), 0));
		if (r.chance(50)) p.faults.push_back(mkfault(ck, C_CC, r.chance(50) ? F_CCEXIT : F_CCSIG, (int)r.below(steps ? steps : 1), 1));
	}
	else { s.variant = "sigchld-ignored"; p.cmds[0].sigign |= 1ULL << SIGCHLD; if (r.chance(50)) p.faults.push_back(mkfault(ck, C_CC, F_CCEXIT, (int)r.below(steps ? steps : 1), 1)); }
	if (r.chance(25)) p.faults.push_back(mkfault(ck, C_CC, F_DELAY, (int)r.below(steps ? steps : 1), r.range(1, 80), (int)r.below(2)));
	if (r.chance(10)) p.faults.push_back(mkfault(1, C_UNLINK, F_ERR, 0, EBUSY));
}

static void g_c06(Rng &r, bool, Scen &s) {
	WOpt w; w.imports = 1; w.slow = r.chance(20); w.pinvalid = 5;
	Work k = gen_work(r, w);
	if (r.chance(25)) leftovers(r, k);
	put_work(s, k, r);
	const Outcome &b = ref_run(s.files, k.cmd);
	if (!b.ok) return;
	int n = r.chance(70) ? 1 : r.range(2, 3);
	bool anypower = false;
	for (int i = 0; i < n; i++) {
		if (i) { s.phases.emplace_back(); gen_cfg(r, s.phases.back().cfg); s.phases.back().cmds.push_back(k.cmd); }
		PhaseSpec &p = s.phases.back();
		p.power_seed = r.next() >> 8;
		bool power = r.chance(40); anypower |= power;
		int key = b.proc(KID) && r.chance(35) ? KID : 1;
		p.faults.push_back(kill_fault(r, b, key, power));
		if (key == 1 && b.proc(KEYMUL + 1) && r.chance(30)) p.faults.push_back(kill_fault(r, b, KEYMUL + 1, false));
		p.cfg.sched_permille = 300; p.cfg.sched_seed = r.next() >> 4;
	}
	if (r.chance(20)) twin_leftovers(r, s, model_of(k.cmd), b);
	s.variant = anypower ? "power" : "kill";
	s.phases.emplace_back();
	PhaseSpec &f = s.phases.back();
	gen_cfg(r, f.cfg); f.power_seed = r.next() >> 8;
	f.cmds.push_back(k.cmd);
	if (r.chance(30)) { // the source changed in between
		string t; for (auto &x : k.files) if (x.path == k.src_abs) t = x.data;
		EditSpec e; e.op = E_REPLACE; e.path = k.src_abs; e.data = mutate_text(r, t);
		f.edits.push_back(e); f.faults.push_back(mkfault(1, C_ANY, F_EDIT, 0, 0));
		s.variant += "-edit";
	}
}

static void g_c07(Rng &r, bool, Scen &s) {
	int n = r.chance(50) ? 2 : r.chance(70) ? 3 : 4;
	WOpt w; w.exotic = r.chance(30); w.slow = false; w.outopt = false; w.pinvalid = 12;
	static const char *names[] = { "a", "b", "aa", "a.b", "ab", "main", "sub/a", "sub/b", "sub/deep/a", "x y" };
	vector<int> idx; for (int i = 0; i < 10; i++) idx.push_back(i);
	for (int i = 9; i > 0; i--) std::swap(idx[(size_t)i], idx[r.below((uint64_t)i + 1)]);
	s.phases.emplace_back();
	gen_cfg(r, s.phases[0].cfg);
	s.phases[0].cfg.shortio = r.chance(20) ? 500 : 0;
	s.files.push_back(mkd("/w/sub/deep"));
	s.files.push_back(mkf("/w/shared.sk", "s0 := 1\n")); s.files.push_back(mkf("/w/sub/shared.sk", "s0 := 1\n")); s.files.push_back(mkf("/w/sub/deep/shared.sk", "s0 := 1\n"));
	bool samemode = r.chance(40); vector<string> opt0;
	// relatives: sources in one directory whose names differ in a single place of a long or short stem
	int kin = r.chance(30) ? (int)r.range(1, 3) : 0;
	string kinstem, kindir = r.chance(30) ? "sub/" : ""; vector<string> kinmark;
	if (kin) {
		static const int lens[] = { 1, 2, 6, 7, 8, 12, 14, 15, 16, 30, 31, 32, 48, 60, 62, 64, 80, 100, 120, 127, 128, 150, 200, 230, 240 };
		int len = lens[r.below(25)]; static const char *const sy[] = { "module", "_", "part", "-", "x", "billing", "of", "v2" };
		while ((int)kinstem.size() < len) kinstem += sy[r.below(8)];
		kinstem.resize((size_t)len);
		static const char *const mk[4][4] = { { "1", "2", "3", "4" }, { "A", "a", "B", "b" }, { "x", "", "xx", "xxx" }, { "_one", "_two", "_three", "_four" } };
		int z = (int)r.below(4); for (int i = 0; i < 4; i++) kinmark.push_back(mk[z][i]);
	}
	for (int i = 0; i < n; i++) {
		CmdSpec c; c.cwd = "/w";
		string src = string("/w/") + names[idx[(size_t)i]] + ".sk";
		if (kin) src = "/w/" + kindir + (kin == 1 ? kinstem + kinmark[(size_t)i] : kin == 2 ? kinmark[(size_t)i] + kinstem : kinstem.substr(0, kinstem.size() / 2) + kinmark[(size_t)i] + kinstem.substr(kinstem.size() / 2)) + ".sk";
		vector<string> imp; if (r.chance(25)) imp.push_back("shared");
		Prog p = gen_text(r, w, imp);
		FileSpec f = mkf(src, p.text); f.kind = p.kind; s.files.push_back(f);
		vector<string> o;
		if (samemode && i) o = opt0; else { WOpt w2 = w; w2.outopt = r.chance(40); o = gen_opts(r, w2, "/w", "/w", nullptr, i + 1); }
		if (samemode && !i) { opt0 = o; for (size_t z = 0; z < opt0.size(); z++) if (opt0[z] == "-o") { opt0.erase(opt0.begin() + (long)z, opt0.begin() + (long)z + 2); break; } o = opt0; }
		c.argv = { "skull", spell(r, "/w", src) };
		for (auto &x : o) c.argv.push_back(x);
		gen_io(r, c);
		s.phases[0].cmds.push_back(c);
	}
	PhaseSpec &p = s.phases[0];
	static const uint32_t pm[] = { 15, 60, 200, 500, 1000 };
	p.cfg.sched_permille = pm[r.below(5)]; p.cfg.sched_seed = r.next() >> 4;
	s.variant = "interleave";
	int v = (int)r.below(100);
	if (v < 35) {
		const Outcome &b = ref_run(s.files, p.cmds[0]);
		if (!b.ok) return;
		if (v < 20) { s.variant = "kill-one"; p.faults.push_back(kill_fault(r, b, 1, false)); }
		else { Fault f; s.variant = "fault-one"; vector<int> all = { C_OPEN, C_READ, C_WRITE, C_OUT, C_CLOSE, C_SEEK, C_STAT, C_UNLINK, C_FORK, C_EXEC, C_WAIT }; if (err_fault(r, b, all, { 1 }, f)) p.faults.push_back(f); }
	}
	if (r.chance(30)) { int who = (int)r.below((uint64_t)n); p.faults.push_back(mkfault(who + 1, C_ANY, F_DELAY, r.range(0, 60), r.range(20, 400))); }
}

static void g_c08(Rng &r, bool, Scen &s, bool strict_fds) {
	int nreq = r.chance(60) ? r.range(2, 3) : r.range(1, 5);
	WOpt w; w.exotic = r.chance(25); w.slow = r.chance(25); w.pinvalid = 22; w.outopt = false; w.pwarn = 60;
	CmdSpec c; c.kind = CMD_HOST; c.cwd = "/w";
	s.files.push_back(mkd("/w/sub/deep"));
	s.files.push_back(mkf("/w/mod0.sk", "s0 := 1\n"));
	bool submod = r.chance(40); if (submod) s.files.push_back(mkf("/w/sub/mod0.sk", "s0 := 1\n"));
	int fid = 0;
	bool manywarn = r.chance(30); (void)manywarn;
	vector<string> lastopt; vector<string> lastfiles;
	bool busy = r.chance(45);     // the calling program changes things between its requests
	for (int q = 0; q < nreq; q++) {
		vector<string> o; string extra;
		if (q && r.chance(25)) o = lastopt;
		else {
			WOpt w2 = w; w2.outopt = r.chance(35);
			o = gen_opts(r, w2, "/w", "/w", &extra, q + 1);
		}
		bool single = false; for (auto &x : o) if (x == "-o") single = true;
		lastopt.clear(); for (size_t i = 0; i < o.size(); i++) { if (o[i] == "-o") { i++; continue; } lastopt.push_back(o[i]); }
		if (q && r.chance(15) && !lastfiles.empty() && !single) {
			for (auto &f : lastfiles) o.push_back(f);   // the same files again
		}
		else {
			int nf = single ? 1 : r.chance(50) ? 1 : r.range(2, 4);
			lastfiles.clear();
			for (int i = 0; i < nf; i++) {
				vector<string> imp; if (r.chance(20)) imp.push_back(r.chance(70) ? "mod0" : "nomod");
				string b = r.chance(20) && w.exotic ? gen_base(r, true) : "p";
				bool sub = r.chance(25);
				string path = string(sub ? "/w/sub/" : "/w/") + b + num((uint64_t)fid++) + ".sk";
				Prog p = gen_text(r, w, imp);
				if (imp.size() && (imp[0] == "nomod" || (sub && !submod))) p.kind = PK_INVALID;
				FileSpec f = mkf(path, p.text); f.kind = p.kind;
				if (r.chance(4)) f.data = "", f.kind = PK_EMPTY;
				if (!r.chance(3)) s.files.push_back(f);       // now and then a missing source
				string sp = spell(r, "/w", path);
				o.push_back(sp); if (!single) lastfiles.push_back(sp);
			}
		}
		if (!extra.empty()) { o.push_back("--"); o.push_back(extra); }
		if (busy && r.chance(55)) {
			vector<string> pre;
			if (r.chance(35)) pre.push_back("-@C");
			if (q && r.chance(40) && !lastfiles.empty()) {   // an earlier source, now with another text
				string path = abspath("/w", lastfiles[r.below(lastfiles.size())]), alt = "/w/alt" + num((uint64_t)q);
				Prog p = gen_text(r, w, {}); FileSpec f = mkf(alt, p.text); f.kind = p.kind; s.files.push_back(f);
				bool have = false; for (auto &f2 : s.files) if (f2.path == path) have = true;
				if (have && p.text.size() < 60000) pre.push_back("-@cp:" + alt + ":" + path);
			}
			if (q && r.chance(20)) pre.push_back(r.chance(60) ? "-@rm:/w/mod0.sk" : "-@cp:/w/mod0.sk:/w/nomod.sk");
			if (r.chance(25)) { // from elsewhere: relative names mean something else
				bool rel = false; for (size_t i = 0; i < o.size(); i++) if (o[i] == "-o") rel = true;
				if (!rel) { pre.push_back("-@cd:/w/sub"); for (auto &a : o) if (!a.empty() && a[0] != '-' && a[0] != '/' && a.find(".sk") != string::npos) a = "../" + a; }
			}
			o.insert(o.begin(), pre.begin(), pre.end());
		}
		c.reqs.push_back(o);
	}
	if (r.chance(strict_fds ? 30 : 12)) {   // something is in the way of an output
		for (auto &q : c.reqs) {
			if (r.chance(40)) continue;
			ReqPlan pl = plan_of(q);
			if (pl.files.empty()) continue;
			Model m = model_req(q, pl.files[r.below(pl.files.size())], c.cwd);
			if (m.bad || m.to_stdout || m.out_abs.empty() || m.out_abs.compare(0, 3, "/w/")) continue;
			string at = m.mode == MO_LINK && r.chance(40) ? m.obj_abs : m.out_abs;
			bool have = false; for (auto &f : s.files) if (f.path == at) have = true;
			if (have) continue;
			if (r.chance(65)) s.files.push_back(mkd(at)); else if (m.mode != MO_LINK) s.files.push_back(mkf(at, "protected", 0444));
		}
	}
	gen_io(r, c);
	s.phases.emplace_back();
	PhaseSpec &p = s.phases[0];
	gen_cfg(r, p.cfg);
	p.cmds.push_back(c);
	s.variant = "requests";
	if (r.chance(strict_fds ? 55 : 30)) {
		const Outcome &b = ref_run(s.files, c);
		if (!b.ok) return;
		Fault f; vector<int> all = { C_OPEN, C_OPEN, C_READ, C_CLOSE, C_SEEK, C_STAT, C_UNLINK, C_FORK, C_EXEC, C_WAIT, C_WRITE, C_OUT };
		s.variant = "requests-fault";
		int n = r.chance(80) ? 1 : 2;
		for (int i = 0; i < n; i++) if (err_fault(r, b, all, { 1, 1, KID, KID + 1, KID + 2 }, f, 5)) p.faults.push_back(f);
		if (r.chance(20) && b.proc(KID)) p.faults.push_back(mkfault(KID, C_CC, F_CCEXIT, (int)r.below(b.proc(KID)->cnt[C_CC] + 1), 1));
	}
}

static void g_c09(Rng &r, bool th, Scen &s) {
	WOpt w; w.imports = 2; w.pinvalid = 25; w.hugeok = th;
	Work k = gen_work(r, w);
	if (r.chance(60)) leftovers(r, k);
	put_work(s, k, r);
	PhaseSpec &p = s.phases[0];
	p.cfg.fill = 1 + (uint32_t)r.below(6);
	p.cfg.stackfill = 1 + (uint32_t)r.below(3);
	if (r.chance(15)) p.cmds[0].fdpad = r.range(30, 70);
	if (r.chance(20)) {   // every name absolute: where it runs does not matter
		CmdSpec &c = p.cmds[0]; Model m = model_of(c); bool ok = true, tail = false; string srcarg = m.src;
		for (size_t i = 1; i < c.argv.size(); i++) {
			if (c.argv[i] == "--") tail = true;
			if (tail) continue;
			if (c.argv[i] == "-g" || c.argv[i] == "--debug") ok = false;
			if (c.argv[i] == srcarg && c.argv[i - 1] != "-o") c.argv[i] = m.src_abs;
			else if (i && c.argv[i - 1] == "-o" && c.argv[i] != "-") c.argv[i] = abspath(c.cwd, c.argv[i]);
		}
		if (ok && !m.bad) { s.files.push_back(mkd("/elsewhere")); s.variant = "elsewhere"; return; }
	}
	if (r.chance(25)) { const Outcome &b = ref_run(s.files, k.cmd); if (b.ok) twin_leftovers(r, s, model_of(k.cmd), b); }
	s.variant = p.cfg.gap == 3 ? "guard-pages" : p.cfg.reuse ? "recycled-memory" : "garbage-memory";
}

// names whose length brings a message (or a part of one) close to a round size
static int round_size(Rng &r, int lo, int hi) {
	for (int t = 0; t < 50; t++) { int v = (1 << r.range(4, 13)) * (r.chance(15) ? 3 : 1) / (r.chance(15) ? 2 : 1) + r.range(-3, 3); if (r.chance(10)) v = r.range(1, 40) * 100 + r.range(-2, 2); if (v >= lo && v <= hi) return v; }
	return r.range(lo, hi);
}
static string long_name(Rng &r, int n) { string x = "lNm"; static const char al[] = "abcdefghijklmnopqrstuvwxyz_0123456789"; while ((int)x.size() < n) x += al[r.below(37)]; x.resize((size_t)std::max(n, 3)); return x; }
static void g_long(Rng &r, Scen &s) {
	static const char *const T[] = { "return NAME\n", "NAME := 5\nreturn 0\n", "mut NAME := 5\nif NAME is 5 {\n\tnoop\n}\n", "NAME := 1\nNAME = 2\n", "NAME()\n", "x: NAME = 5\n", "NAME(a: Int) {\n\tnoop\n}\nreturn 0\n",
		"NAME := 5\nNAME := 6\n", "mut y := 5\ny = NAME\n", "NAME() Int {\n\tnoop\n}\nreturn 0\n", "f(NAME: Int) Int {\n\treturn 1\n}\nreturn f(1)\n", "NAME := Int\nNAME := Bool\n", "NAME(a: Int) Int {\n\treturn a\n}\nreturn NAME(2)\n", "mut NAME := 5\nNAME = 6\nreturn NAME\n" };
	string tmpl = T[r.below(14)], pre;
	int np = (int)r.below(4); for (int i = 0; i < np; i++) pre += r.chance(50) ? "# c\n" : "u" + std::to_string(i) + " := 1\n";
	CmdSpec c; c.cwd = "/w";
	bool path = r.chance(25);
	auto put = [&](const string &nm) { string t = tmpl; for (size_t i; (i = t.find("NAME")) != string::npos;) t.replace(i, 4, nm); return pre + t; };
	string src = "/w/lNm.sk";
	vector<string> o; switch (r.below(5)) { case 0: o = { "-E", "-o", "-" }; break; case 1: o = { "-E", "--c-backend", "-o", "-" }; break; case 2: o = { "-E", "--c-backend" }; break; case 3: o = { "-c" }; break; default: o = { "-E" }; break; }
	if (r.chance(10)) o.push_back("--werror"); else if (r.chance(10)) o.push_back("--color");
	c.argv = { "skull", src }; for (auto &x : o) c.argv.push_back(x);
	gen_io(r, c);
	s.variant = path ? "long-path" : "long-name";
	s.files.push_back(mkd("/w"));
	// measure with a short name
	vector<FileSpec> fs = s.files; fs.push_back(mkf(src, put("lNm")));
	const Outcome &b = ref_run(fs, c);
	int over = 0;
	if (b.ok && !b.cmds[0].err.empty()) {
		string l = b.cmds[0].err.substr(0, b.cmds[0].err.find('\n'));
		size_t at = l.rfind("lNm"), from = 0;
		if (!path && at != string::npos) { switch (r.below(3)) { case 0: break; case 1: from = l.find(": line"); break; default: from = l.rfind(": ", at); break; } if (from == string::npos || from > at) from = 0; }
		over = (int)(l.size() - from) - 3;
	}
	if (path) {
		int n = round_size(r, 12, 380); string d = "/w";
		while ((int)d.size() + 70 < n) { d += "/" + long_name(r, 60); s.files.push_back(mkd(d)); }
		int rest = n - (int)d.size() - 1 - 3; if (rest < 4) rest = 4;
		src = d + "/" + long_name(r, rest) + ".sk";
		c.argv[1] = src;
		s.files.push_back(mkf(src, put("lNm")));
	}
	else { int t = round_size(r, 8 + over, 9000); s.files.push_back(mkf(src, put(long_name(r, t - over)))); }
	s.phases.emplace_back(); gen_cfg(r, s.phases[0].cfg); s.phases[0].cmds.push_back(c);
}

// a program whose warnings can be counted: each unit deserves one for its condition and one for its unused variable
static void g_warnings(Rng &r, Scen &s) {
	WOpt w; w.slow = false; w.outopt = r.chance(50);
	Work k = gen_work(r, w);
	int n = r.chance(60) ? r.range(1, 12) : r.range(20, 150);
	string t = "# warned " + num(n) + "\n";
	bool ty = r.chance(50);
	for (int i = 0; i < n; i++) {
		char id[16]; snprintf(id, sizeof id, "_%05d_q", i);
		string pad(r.below(3), '\n');
		t += pad + (ty ? "if true { noop }\n" : "if false { noop }\n") + "u" + id + " := " + num(i) + "\n";
		if (r.chance(10)) t += "# " + string(r.below(3000), 'w') + "\n";
	}
	for (auto &f : k.files) if (f.path == k.src_abs) { f.data = t; f.kind = PK_VALID; }
	s.variant = "many-warnings";
	put_work(s, k, r);
	if (r.chance(50)) s.phases[0].cfg.shortio = 800;
}
static void g_c10(Rng &r, bool, Scen &s) {
	if (r.chance(12)) { g_long(r, s); return; }
	if (r.chance(8)) { g_warnings(r, s); return; }
	WOpt w; w.imports = 1; w.pinvalid = 40; w.pwarn = 75; w.slow = false;
	Work k = gen_work(r, w);
	int v = (int)r.below(100);
	if (v < 10) {
		s.variant = "usage-error";
		vector<string> x;
		static const vector<vector<string>> bad = { { "-z" }, { "--nope" }, { "-O9" }, { "-cS" }, { "-c", "-c" }, { "-S", "-E" }, { "-o" }, { "--" }, { "-q", "--werror" }, { "--c-backend", "-S" }, { "-O1", "-O2" }, { "--c-backend", "--llvm-no-verify" }, { "-c", "-o", "-" }, { "-o", "-" } };
		x = r.pick(bad);
		k.cmd.argv = { "skull" };
		string sp = spell(r, k.cmd.cwd, k.src_abs);
		if (r.chance(85)) k.cmd.argv.push_back(sp);
		for (auto &a : x) k.cmd.argv.push_back(a);
		if (r.chance(10)) k.cmd.argv = { "skull", r.chance(50) ? "missing.sk" : r.chance(50) ? "noext" : ".sk" };
		if (r.chance(15)) { k.cmd.argv = { "skull" }; static const char *info[] = { "-h", "--help", "-v", "--version", "", "-", "a.c" }; int i = (int)r.below(8); if (i < 7) k.cmd.argv.push_back(info[i]); }
	}
	put_work(s, k, r);
	PhaseSpec &p = s.phases[0];
	if (v < 10) return;
	if (v < 30) { s.variant = "plain"; p.cfg.shortio = r.chance(50) ? 1000 : 0; return; }
	const Outcome &b = ref_run(s.files, k.cmd);
	if (!b.ok) return;
	if (v < 65) {
		s.variant = "bad-stderr";
		p.cmds[0].sigign |= 1ULL << SIGPIPE;
		if (r.chance(20)) { s.variant = "no-stderr"; p.cmds[0].sk_err = SK_CLOSED; return; }
		const ProcOut *q = b.proc(1);
		uint32_t n = q && q->cnt[C_ERR] ? q->cnt[C_ERR] : 1;
		int st = r.chance(60);
		static const int ee[] = { EIO, ENOSPC, EPIPE, EBADF, EAGAIN };
		p.faults.push_back(mkfault(-1, C_ERR, F_ERR, st && r.chance(60) ? 0 : (int)r.below(n), ee[r.below(st ? 4 : 5)], 0, st));
		if (r.chance(30)) p.faults.push_back(mkfault(1, C_ERR, F_SHORT, (int)r.below(n), r.range(1, 30)));
		return;
	}
	s.variant = "failure";
	int n = r.range(1, 2);
	for (int i = 0; i < n; i++) {
		Fault f;
		if (r.chance(20) && b.proc(1) && b.proc(1)->cnt[C_ALLOC]) { p.faults.push_back(mkfault(1, C_ALLOC, F_NULL, (int)r.below(b.proc(1)->cnt[C_ALLOC]))); continue; }
		if (r.chance(15) && b.proc(KID)) { p.faults.push_back(mkfault(KID, C_CC, r.chance(50) ? F_CCEXIT : F_CCSIG, (int)r.below(b.proc(KID)->cnt[C_CC] + 1), 2)); continue; }
		if (err_fault(r, b, { C_OPEN, C_READ, C_WRITE, C_OUT, C_CLOSE, C_SEEK, C_STAT, C_UNLINK, C_FORK, C_EXEC, C_WAIT, C_MISC }, prockeys(b), f)) p.faults.push_back(f);
	}
}

static void g_c15(Rng &r, bool th, Scen &s) {
	g_c08(r, th, s, true);
	if (s.phases.empty() || s.phases[0].cmds.empty()) return;
	CmdSpec &c = s.phases[0].cmds[0];
	if (r.chance(70) && !c.reqs.empty()) c.reqs[0].insert(c.reqs[0].begin(), "-@own");
	if (r.chance(35)) c.env.push_back(r.chance(50) ? "LC_ALL=C.UTF-8" : "LANG=C.UTF-8");
	if (r.chance(25)) c.fdpad = r.range(1, 6);
}

static void g_c11(Rng &r, bool th, Scen &s) {
	if (r.chance(55)) { g_c08(r, th, s, true); s.variant = "host-" + s.variant; return; }
	WOpt w; w.modes = W_LINK | (r.chance(20) ? 0x3e : 0); w.imports = 2; w.slow = false; w.pinvalid = 10;
	Work k = gen_work(r, w);
	if (r.chance(30)) leftovers(r, k);
	Model m = model_of(k.cmd);
	if (r.chance(15) && m.mode == MO_LINK && !m.bad) {
		bool have = false; for (auto &f : k.files) if (f.path == m.out_abs) have = true;
		if (!have) k.files.push_back(mkd(m.out_abs));
	}
	put_work(s, k, r);
	PhaseSpec &p = s.phases[0];
	s.variant = "cli";
	if (r.chance(35)) return;
	const Outcome &b = ref_run(s.files, k.cmd);
	if (!b.ok) return;
	s.variant = "cli-fault";
	if (r.chance(45) && b.proc(KID)) {
		int ck = KID; uint32_t st = b.proc(KID)->cnt[C_CC];
		switch (r.below(4)) {
			case 0: p.faults.push_back(mkfault(ck, C_CC, F_CCEXIT, (int)r.below(st + 1), r.range(1, 255))); break;
			case 1: p.faults.push_back(mkfault(ck, C_CC, F_CCSIG, (int)r.below(st + 1), r.chance(50) ? SIGSEGV : SIGKILL)); break;
			case 2: p.faults.push_back(mkfault(ck, C_EXEC, F_ERR, 0, ENOENT, 0, 1)); break;
			default: p.faults.push_back(mkfault(1, C_FORK, F_ERR, 0, EAGAIN, 0, 1)); break;
		}
		return;
	}
	Fault f;
	if (err_fault(r, b, { C_OPEN, C_READ, C_CLOSE, C_SEEK, C_STAT, C_FORK, C_EXEC, C_WAIT }, prockeys(b), f)) p.faults.push_back(f);
}

static void g_c12(Rng &r, bool, Scen &s) {
	WOpt w; w.imports = 3; w.pinvalid = 10; w.slow = false; w.bigger = r.chance(20);
	Work k = gen_work(r, w);
	put_work(s, k, r);
	PhaseSpec &p = s.phases[0];
	p.cfg.shortio = 0; p.cfg.blksize = 4096; p.cmds[0].sk_out = SK_PIPE;
	const Outcome &b = ref_run(s.files, k.cmd);
	if (!b.ok) return;
	s.variant = "persistent";
	int n = r.range(1, 3);
	for (int i = 0; i < n; i++) {
		Fault f; vector<int> all = { C_OPEN, C_READ, C_WRITE, C_OUT, C_ERR, C_CLOSE, C_SEEK, C_STAT, C_UNLINK, C_FORK, C_EXEC, C_WAIT, C_MMAP, C_CWD, C_MISC };
		int v = (int)r.below(100);
		if (v < 60) { if (err_fault(r, b, all, prockeys(b), f, 80)) p.faults.push_back(f); }
		else if (v < 75) { // a burst of interruptions
			vector<std::pair<int, int>> c; for (auto &q : b.procs) for (int x : { C_OPEN, C_READ, C_WRITE, C_OUT, C_WAIT, C_CLOSE }) if (q.cnt[x]) c.push_back({ q.key, x });
			if (c.empty()) continue;
			auto q = c[r.below(c.size())]; int n0 = (int)r.below(b.proc(q.first)->cnt[q.second]), len = r.range(1, 12);
			for (int z = 0; z < len && p.faults.size() < 50; z++) p.faults.push_back(mkfault(q.first, q.second, F_ERR, n0 + z, EINTR, q.second == C_WAIT ? (int)r.below(2) : 0));
		}
		else if (v < 85 && b.proc(1)) p.faults.push_back(mkfault(1, C_READ, F_EOF, (int)r.below(b.proc(1)->cnt[C_READ] + 1), 0, 0, 1));
		else if (v < 93 && b.proc(KID)) p.faults.push_back(mkfault(KID, C_CC, r.chance(50) ? F_CCSIG : F_CCEXIT, (int)r.below(b.proc(KID)->cnt[C_CC] + 1), r.chance(50) ? 9 : 11));
		else if (b.proc(1) && b.proc(1)->cnt[C_ALLOC]) p.faults.push_back(mkfault(1, C_ALLOC, F_NULL, (int)r.below(b.proc(1)->cnt[C_ALLOC]), 0, 0, 1));
	}
	for (auto &f : p.faults) if (f.a == EPIPE) p.cmds[0].sigign |= 1ULL << SIGPIPE;
	if (r.chance(12)) { p.faults.clear(); p.cfg.disk = (int64_t)r.below(r.chance(50) ? 40 : 3000); s.variant = "disk-full"; return; }
	if (b.proc(KID) && r.chance(25)) { if (r.chance(60)) p.faults.clear(); p.faults.push_back(mkfault(KID, C_CC, F_DELAY, (int)r.below(b.proc(KID)->cnt[C_CC] + 1), r.range(3000, 20000))); s.variant = "slow-linker"; return; }
	if (r.chance(8)) { p.faults.clear(); p.cmds[0].sigign |= 1ULL << SIGCHLD; s.variant = "sigchld-ignored"; }
}

static void g_c13(Rng &r, bool, Scen &s) {
	static const char *dirs[] = { "/w", "/w/sub", "/w/sub/deep", "/", "/home/u", "/w/dir with space" };
	static const char *cwds[] = { "/w", "/", "/home/u", "/w/sub", "/tmp" };
	string dir = dirs[r.below(6)];
	CmdSpec c; c.cwd = r.chance(45) ? dir : cwds[r.below(5)];
	s.files.push_back(mkd("/w/sub/deep")); s.files.push_back(mkd("/w/dir with space"));
	string pre = dir == "/" ? "" : dir;
	int n = r.chance(85) ? r.range(1, 5) : r.range(10, 40);
	bool many = n > 5;
	vector<string> mods;
	static const char *mnames[] = { "m", "util", "lib_a", "Mod", "z9", "a_very_long_module_name_that_goes_on_and_on_and_on" };
	for (int i = 0; i < n; i++) {
		if (i && r.chance(15)) { mods.push_back(r.pick(mods)); continue; }
		string m = string(mnames[r.below(6)]) + (i ? num((uint64_t)i) : "");
		if (r.chance(many ? 2 : 8)) { int len = r.chance(70) ? r.range(225, 252) : r.range(253, 300); while ((int)m.size() < len) m += (char)('a' + r.below(26)); }
		mods.push_back(m);
		int v = many ? 0 : (int)r.below(100);
		string path = pre + "/" + m + ".sk";
		if (!many && r.chance(12)) {
			FileSpec l = mkf(path, ""); l.type = T_LINK; string to = r.chance(50) ? pre + "/real" + num((uint64_t)i) + ".sk" : "/tmp/real" + num((uint64_t)i);
			int k = (int)r.below(10);
			if (k < 7) { s.files.push_back(mkf(to, "q := 1\n", k < 6 ? 0644 : 0)); l.data = to; }
			else if (k == 7) l.data = to;
			else l.data = path;
			if (l.data.size() > pre.size() && !l.data.compare(0, pre.size() + 1, pre + "/") && r.chance(50)) l.data = l.data.substr(pre.size() + 1);
			s.files.push_back(l);
			continue;
		}
		if (m.size() > 252) continue;
		if (v < 72) s.files.push_back(mkf(path, r.chance(30) ? "" : "q := 1\n", r.chance(80) ? 0644 : 0444));
		else if (v < 84) { // missing here; sometimes present where it must not be looked for
			if (r.chance(60) && c.cwd != dir) s.files.push_back(mkf((c.cwd == "/" ? "" : c.cwd) + "/" + m + ".sk", "q := 1\n"));
			if (r.chance(20)) s.files.push_back(mkf(pre + "/" + m, "q := 1\n"));
		}
		else if (v < 94) s.files.push_back(mkf(path, "q := 1\n", r.chance(50) ? 0 : 0200));
		else s.files.push_back(mkf(path, "this is not a program ((", 0644));
	}
	string text;
	bool spread = r.chance(30);
	for (auto &m : mods) { if (spread && r.chance(50)) text += "# here\n"; text += "import " + m + "\n"; }
	text += "return 0\n";
	string src = pre + "/importer.sk";
	FileSpec f = mkf(src, text); f.kind = PK_MAYBE; s.files.push_back(f);
	static const vector<vector<string>> om = { { "-E" }, { "--c-backend" }, { "-c" }, {}, { "-S", "-g" }, { "-E", "-q" }, { "--c-backend", "--color" } };
	c.argv = { "skull", spell(r, c.cwd, src) };
	for (auto &o : r.pick(om)) c.argv.push_back(o);
	gen_io(r, c);
	if (many && r.chance(70)) c.fdpad = r.range(60, 84);
	s.phases.emplace_back();
	gen_cfg(r, s.phases[0].cfg);
	s.phases[0].cmds.push_back(c);
	PhaseSpec &p = s.phases[0];
	s.variant = many ? "many" : "static";
	int v = (int)r.below(100);
	if (v < 45) return;
	const Outcome &b = ref_run(s.files, c);
	if (!b.ok || !b.proc(1)) return;
	uint32_t no = b.proc(1)->cnt[C_OPEN];
	if (v < 80) {
		s.variant += "-open-error";
		static const int ee[] = { EMFILE, ENFILE, EIO, EACCES, ENOENT, ENOMEM, ELOOP, ENOTDIR };
		p.faults.push_back(mkfault(1, C_OPEN, F_ERR, 1 + (int)r.below(no > 1 ? no - 1 : 1), ee[r.below(8)], 0, r.chance(15)));
		if (r.chance(15) && b.proc(1)->cnt[C_CLOSE]) p.faults.push_back(mkfault(1, C_CLOSE, F_ERR, (int)r.below(b.proc(1)->cnt[C_CLOSE]), EIO));
	}
	else {
		s.variant += "-edit";
		EditSpec e; string m = r.pick(mods); e.path = pre + "/" + m + ".sk";
		switch (r.below(3)) { case 0: e.op = E_UNLINK; break; case 1: e.op = E_CREATE; e.data = "q := 1\n"; break; default: e.op = E_CHMOD; e.len = r.chance(50) ? 0 : 0644; }
		p.edits.push_back(e);
		p.faults.push_back(mkfault(1, C_OPEN, F_EDIT, (int)r.below(no), 0));
	}
}

// the same program for several kinds of output, some of which cannot be written
static vector<string> judge_flags(Rng &r) {
	vector<string> v;
	int k = (int)r.below(10);
	if (k < 2) v.push_back("-q"); else if (k < 4) v.push_back("--werror");
	if (r.chance(20)) v.push_back("--color");
	return v;
}
static vector<string> kind_flags(Rng &r) {
	static const vector<vector<string>> K = { {}, { "-E" }, { "-S" }, { "-c" }, { "--c-backend" }, { "--c-backend", "-E" } };
	vector<string> v = r.pick(K);
	bool cb = !v.empty() && v[0] == "--c-backend";
	if (r.chance(25)) v.push_back("-g");
	if (!cb && r.chance(20)) v.push_back(r.chance(60) ? "-O1" : r.chance(50) ? "-O2" : "-O3");
	if (!cb && r.chance(10)) v.push_back("--llvm-no-verify");
	return v;
}
static void g_c14(Rng &r, bool, Scen &s) {
	WOpt w; w.imports = 2; w.pinvalid = 45; w.pwarn = 80; w.bigger = r.chance(15);
	Work k = gen_work(r, w);
	if (r.chance(15)) leftovers(r, k);
	if (r.chance(35)) {   // one process, several kinds of output
		s.variant = "session";
		string sp = spell(r, k.cmd.cwd, k.src_abs); if (sp[0] == '-') sp = "./" + sp;
		k.cmd.kind = CMD_HOST; k.cmd.argv.clear(); if (k.cmd.sk_in == SK_CLOSED) k.cmd.sk_in = -1;
		vector<string> jf = judge_flags(r);
		int n = r.range(2, 4);
		for (int i = 0; i < n; i++) { vector<string> q = kind_flags(r); q.insert(q.end(), jf.begin(), jf.end()); q.push_back(sp); k.cmd.reqs.push_back(q); }
		put_work(s, k, r);
		return;
	}
	put_work(s, k, r);
	PhaseSpec &p = s.phases[0];
	s.variant = "kind";
	if (r.chance(35)) { p.cfg.fill = 1 + (uint32_t)r.below(6); return; }
	const Outcome &b = ref_run(s.files, k.cmd);
	if (!b.ok) return;
	s.variant = "late-fault";
	p.cmds[0].sigign |= 1ULL << SIGPIPE;
	int v = (int)r.below(100);
	if (v < 20) {
		uint64_t tot = 0; Model m = model_of(k.cmd);
		for (auto &q : m.allowed) { auto it = b.fs.find(q); if (it != b.fs.end()) tot += it->second.data.size(); }
		p.cfg.disk = (int64_t)r.below(tot + 10);
	}
	else if (v < 40 && b.proc(KID)) p.faults.push_back(mkfault(KID, C_CC, r.chance(60) ? F_CCEXIT : F_CCSIG, (int)r.below(b.proc(KID)->cnt[C_CC] + 1), r.range(1, 6)));
	else for (int i = r.range(1, 3); i > 0; i--) {
		Fault f;
		if (err_fault(r, b, { C_WRITE, C_WRITE, C_OUT, C_CLOSE, C_FORK, C_EXEC, C_WAIT, C_UNLINK, C_MISC }, prockeys(b), f, 30)) p.faults.push_back(f);
	}
}

bool generate(const string &prop, uint64_t seed, bool th, Scen &s) {
	s = Scen();
	s.prop = prop; s.seed = seed;
	uint64_t h = fnv(prop.data(), prop.size(), FNV0);
	Rng r(seed ^ (h << 1));
	if (prop == "C01") g_c01(r, th, s);
	else if (prop == "C02") g_c02(r, th, s);
	else if (prop == "C03") g_c03(r, th, s);
	else if (prop == "C04") g_c04(r, th, s);
	else if (prop == "C05") g_c05(r, th, s);
	else if (prop == "C06") g_c06(r, th, s);
	else if (prop == "C07") g_c07(r, th, s);
	else if (prop == "C08") g_c08(r, th, s, false);
	else if (prop == "C09") g_c09(r, th, s);
	else if (prop == "C10") g_c10(r, th, s);
	else if (prop == "C11") g_c11(r, th, s);
	else if (prop == "C12") g_c12(r, th, s);
	else if (prop == "C13") g_c13(r, th, s);
	else if (prop == "C14") g_c14(r, th, s);
	else if (prop == "C15") g_c15(r, th, s);
	else return false;
	return !s.phases.empty();
}
