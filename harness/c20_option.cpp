// command line parser against a reference interpretation
#include <pbt.h>
#include <cybozu/option.hpp>
#include <memory>
#include <list>
#include <sys/mman.h>
using pbt::G; using pbt::show;
static void quiet() { static bool b = false; if (!b) { b = true; if (!freopen("/dev/null", "w", stdout)) abort(); } } // errors are printed
typedef std::vector<std::string> Args;
struct Var { // one variable bound to the parser, with the value the reference gives it
	std::string name, help; bool must, isSet;
	int kind; // 0 flag 1 single 2 vector
	Var() : must(false), isSet(false), kind(1) {}
	virtual ~Var() {}
	virtual bool refSet(const std::string& s) = 0;
	virtual bool same() const = 0;
	virtual void opt(cybozu::Option& o, G& g) = 0;
	virtual void param(cybozu::Option& o, int mode, G& g) = 0; // 0 exact 1 optional 2 rest
	virtual std::string value(G& g) const = 0;
	virtual bool isSetIn(const cybozu::Option& o) const = 0;
	virtual std::string str() const = 0;
};
template<class T> struct Conv;
template<> struct Conv<std::string> {
	static bool conv(const std::string& s, std::string& x) { x = s; return true; }
	static std::string value(G& g) { std::string s = g.text(g.below(5), "ab-1 k:"); if (!s.empty() && g.chance(1, 5)) s[g.below(s.size())] = (char)g.range(1, 255); return s; }
};
template<> struct Conv<double> {
	static bool ambiguous; // text which only begins with a number: the stream extraction of the standard library decides
	static bool conv(const std::string& s, double& x)
	{
		char *e;
		x = strtod(s.c_str(), &e);
		if (!s.empty() && !*e && s.find_first_not_of("0123456789.-e") == std::string::npos) return true;
		if (!s.empty() && !isalpha((unsigned char)s[0])) ambiguous = true;
		return false;
	}
	static std::string value(G& g) { if (g.chance(1, 6)) return g.pick(std::vector<std::string>{"abc", "", "x1"}); std::ostringstream os; os << (double)g.irange(-1000, 1000) / 8; return os.str(); }
};
bool Conv<double>::ambiguous;
template<class T> struct Conv { // integers
	static bool conv(const std::string& s, T& x)
	{
		__int128 v = 0, f = 1;
		std::string t = s;
		if (t.compare(0, 2, "0x") == 0) {
			t = t.substr(2);
			if (t.empty()) return false;
			for (char c : t) { if (!isxdigit((unsigned char)c)) return false; v = v * 16 + (isdigit((unsigned char)c) ? c - '0' : (c | 32) - 'a' + 10); if (v > ((__int128)1 << 80)) return false; }
		} else {
			if (t.size() > 1) {
				const char *u = strchr("kmgKMG", t.back());
				if (u && *u) { static const int fs[] = { 1000, 1000000, 1000000000, 1 << 10, 1 << 20, 1 << 30 }; f = fs[std::string("kmgKMG").find(t.back())]; t.pop_back(); }
			}
			bool neg = std::numeric_limits<T>::is_signed && t[0] == '-';
			if (neg) t = t.substr(1);
			if (t.empty()) return false;
			for (char c : t) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); if (v > ((__int128)1 << 80)) return false; }
			if (neg) v = -v;
			if (v < (__int128)std::numeric_limits<T>::min() || v > (__int128)std::numeric_limits<T>::max()) return false;
			v *= f;
		}
		if (v < (__int128)std::numeric_limits<T>::min() || v > (__int128)std::numeric_limits<T>::max()) return false;
		x = (T)v;
		return true;
	}
	static std::string dec(__int128 v) { if (v < 0) return "-" + dec(-v); std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
	static std::string value(G& g)
	{
		const __int128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
		static const int fs[] = { 1000, 1000000, 1000000000, 1 << 10, 1 << 20, 1 << 30 };
		switch (g.below(7)) {
		case 0: return dec((__int128)(T)g.bits(64));
		case 1: return dec((g.boolean() ? lo : hi) + g.irange(-2, 2));
		case 2: { size_t i = g.below(6); return dec((g.boolean() ? lo : hi) / fs[i] + g.irange(-2, 2)) + "kmgKMG"[i]; }
		case 3: { size_t i = g.below(6); return dec(g.irange(-3, 60)) + "kmgKMG"[i]; }
		case 4: { char b[40]; snprintf(b, sizeof(b), g.boolean() ? "0x%llx" : "0x%llX", (unsigned long long)(g.boolean() ? g.bits(sizeof(T) * 8) : (unsigned long long)hi + g.below(3))); return b; }
		case 5: return dec(g.irange(-5, 100));
		default: return g.pick(std::vector<std::string>{"abc", "", "0x", "k", "1 ", "1kk", "0x1g", "3.5", "1K1", "+1", "0xg", "-k", "--1", "0X1", "0X", "1T", "2t", "1b", "1kK", "1 k", "k1", "0x-1", "00x1", "x1", "-0x1", "1e3", "0x 1", " 1", "1\t", "1P"});
		}
	}
};
template<class T> static std::string toS(const T& x) { std::ostringstream os; os << x; return os.str(); }
template<> std::string toS(const signed char& x) { return std::to_string((int)x); }
template<> std::string toS(const unsigned char& x) { return std::to_string((int)x); }
template<class T> struct Single : Var {
	T x, w;
	Single() : x(), w() {}
	bool refSet(const std::string& s) { isSet = true; return Conv<T>::conv(s, w); }
	bool same() const { return x == w; }
	void opt(cybozu::Option& o, G& g) { if (g.chance(1, 4)) { must = true; o.appendMust(&x, name.c_str(), help); w = T(); } else { T d = T(); Conv<T>::conv(Conv<T>::value(g), d); o.appendOpt(&x, d, name.c_str(), help); w = d; } }
	void param(cybozu::Option& o, int mode, G& g)
	{
		if (mode == 0) { must = true; o.appendParam(&x, name.c_str(), help); w = x; return; }
		T d = T();
		Conv<T>::conv(Conv<T>::value(g), d);
		o.appendParamOpt(&x, d, name.c_str(), help);
		w = d;
	}
	std::string value(G& g) const { return Conv<T>::value(g); }
	bool isSetIn(const cybozu::Option& o) const { return o.isSet(&x); }
	std::string str() const { return toS(w); }
};
struct Flag : Var {
	bool x, w;
	Flag() : x(true), w(false) { kind = 0; }
	bool refSet(const std::string&) { isSet = true; w = true; return true; }
	bool same() const { return x == w; }
	void opt(cybozu::Option& o, G&) { o.appendBoolOpt(&x, name.c_str(), help); }
	void param(cybozu::Option&, int, G&) {}
	std::string value(G&) const { return ""; }
	bool isSetIn(const cybozu::Option& o) const { return o.isSet(&x); }
	std::string str() const { return w ? "1" : "0"; }
};
template<class V> struct Vec : Var {
	typedef typename V::value_type T;
	V x, w;
	Vec() { kind = 2; }
	bool refSet(const std::string& s) { T t; isSet = true; if (!Conv<T>::conv(s, t)) return false; w.push_back(t); return true; }
	bool same() const { return x == w; }
	void opt(cybozu::Option& o, G&) { o.appendVec(&x, name.c_str(), help); }
	void param(cybozu::Option& o, int, G&) { o.appendParamVec(&x, name.c_str(), help); }
	std::string value(G& g) const { return Conv<T>::value(g); }
	bool isSetIn(const cybozu::Option& o) const { return o.isSet(&x); }
	std::string str() const { std::string s; for (auto& e : w) { if (!s.empty() || &e != &*w.begin()) s += " "; s += toS(e); } return s; }
};
static Var *single(G& g)
{
	switch (g.below(12)) {
	case 0: case 1: return new Single<int>; case 2: return new Single<unsigned int>; case 3: return new Single<int8_t>; case 4: return new Single<uint8_t>;
	case 5: return new Single<int16_t>; case 6: return new Single<uint16_t>; case 7: return new Single<long long>; case 8: return new Single<unsigned long>; case 9: return new Single<double>; default: return new Single<std::string>;
	}
}
// what f prints on standard output
template<class F> static std::string captured(F f)
{
	fflush(stdout);
	int old = dup(1), fd = memfd_create("out", 0);
	dup2(fd, 1);
	f();
	fflush(stdout);
	dup2(old, 1);
	close(old);
	std::string s((size_t)lseek(fd, 0, SEEK_END), 0);
	lseek(fd, 0, SEEK_SET);
	if (!s.empty() && read(fd, &s[0], s.size()) < 0) abort();
	close(fd);
	return s;
}
static bool isOpt(const std::string& s) { return !s.empty() && s[0] == '-' && !(s.size() > 1 && s[1] >= '0' && s[1] <= '9'); }
struct Outcome { bool ok; int next; Args after; };
static Outcome interpret(std::vector<std::unique_ptr<Var>>& opts, std::vector<std::unique_ptr<Var>>& params, Var *rest, const std::vector<std::string>& delims, const Args& a, size_t start)
{
	Outcome r; r.ok = false; r.next = (int)a.size();
	auto isDelim = [&](const std::string& s) { return std::find(delims.begin(), delims.end(), s) != delims.end(); };
	for (size_t i = start; i < a.size(); i++) {
		if (isDelim(a[i])) { r.next = (int)i + 1; r.after.assign(a.begin() + i + 1, a.end()); break; }
		if (isOpt(a[i])) {
			Var *v = 0;
			for (auto& p : opts) if ("-" + p->name == a[i]) v = p.get();
			if (!v) return r;
			if (v->kind == 0) v->refSet("1");
			else if (v->kind == 1) { if (++i == a.size() || !v->refSet(a[i])) return r; }
			else {
				size_t k = 0;
				while (i + 1 < a.size() && !isOpt(a[i + 1]) && !isDelim(a[i + 1])) { if (!v->refSet(a[++i])) return r; k++; }
				if (!k) return r;
			}
			continue;
		}
		Var *v = 0;
		for (auto& p : params) if (!p->isSet) { v = p.get(); break; }
		if (!v) v = rest;
		if (!v || !v->refSet(a[i])) return r;
	}
	for (auto& p : opts) if (p->must && !p->isSet) return r;
	for (auto& p : params) if (p->must && !p->isSet) return r;
	r.ok = true;
	return r;
}
PROP_W(parse, 3)
{
	quiet();
	cybozu::Option o;
	std::vector<std::unique_ptr<Var>> opts, params;
	std::unique_ptr<Var> rest;
	static const char *names[] = { "a", "b", "cc", "d", "long-name", "-e", "f", "v", "w", "n0" };
	size_t no = g.below(6);
	for (size_t i = 0; i < no; i++) {
		Var *v = g.below(4) == 0 ? (Var*)new Flag : g.below(3) == 0 ? (g.below(3) == 0 ? (Var*)new Vec<std::vector<int>> : g.boolean() ? (Var*)new Vec<std::vector<std::string>> : g.chance(1, 3) ? (g.boolean() ? (Var*)new Vec<std::vector<uint8_t>> : (Var*)new Vec<std::list<int8_t>>) : (Var*)new Vec<std::list<long long>>) : single(g);
		v->name = names[i * 2 % 10 + g.below(2) * (i * 2 % 10 < 9)];
		opts.emplace_back(v);
		v->opt(o, g);
	}
	size_t np = g.below(3);
	for (size_t i = 0; i < np; i++) { Var *v = single(g); v->name = "param" + std::to_string(i); params.emplace_back(v); v->param(o, 0, g); }
	int pm = (int)g.below(3);
	if (pm == 1) { Var *v = single(g); v->name = "optional"; params.emplace_back(v); v->param(o, 1, g); }
	if (pm == 2) { rest.reset(g.boolean() ? (Var*)new Vec<std::vector<int>> : g.chance(1, 4) ? (Var*)new Vec<std::vector<int8_t>> : (Var*)new Vec<std::vector<std::string>>); rest->name = "rest"; rest->param(o, 2, g); }
	std::vector<std::string> delims;
	std::vector<std::string> after;
	bool keep = g.boolean();
	if (g.chance(1, 3)) { delims.push_back(g.pick(std::vector<std::string>{"---", ":", "--"})); o.setDelimiter(delims[0], keep ? &after : 0); if (g.chance(1, 3)) { delims.push_back("stop"); o.appendDelimiter("stop"); } }
	if (g.chance(1, 3)) o.appendHelp("h");
	Args a;
	size_t start = 1 + (g.chance(1, 5) ? g.below(3) : 0);
	for (size_t i = 0; i < start; i++) a.push_back("prog");
	std::vector<Var*> all;
	for (auto& p : opts) all.push_back(p.get());
	bool noise = g.chance(1, 4);
	auto addOpt = [&](Var *v) { a.push_back("-" + v->name); if (v->kind == 1) a.push_back(v->value(g)); else if (v->kind == 2) for (size_t k = 1 + g.below(3); k > 0; k--) a.push_back(v->value(g)); };
	size_t nextParam = 0;
	for (size_t n = g.below(8); n > 0; n--) {
		switch (g.below(noise ? 4 : 3)) {
		case 0: case 1:
			if (!all.empty() && g.boolean()) { addOpt(all[g.below(all.size())]); break; } // fall through
		case 2:
			if (nextParam < params.size()) a.push_back(params[nextParam++]->value(g));
			else if (rest) a.push_back(rest->value(g));
			break;
		case 3: a.push_back(g.pick(std::vector<std::string>{"-", "--", "-zz", "-5", "x", "", "7", "---", "stop", ":", "-a", "-v", "-.5"})); break;
		}
	}
	for (auto& p : opts) if (p->must && g.chance(5, 6)) addOpt(p.get());
	while (nextParam < params.size() && g.chance(5, 6)) a.push_back(params[nextParam++]->value(g));
	if (!delims.empty() && g.boolean()) { size_t at = start + g.below(a.size() - start + 1); a.insert(a.begin() + at, delims[g.below(delims.size())]); }
	for (auto& s : a) if (s == "-h") DISCARD();
	std::ostringstream os;
	for (auto& s : a) os << show(s) << " ";
	g.note() << "opts " << no << " params " << params.size() << " rest " << !!rest << " delimiters " << delims.size() << " start " << start << " args " << os.str();
	for (auto& p : opts) g.note() << "  -" << p->name << " kind " << p->kind << " must " << p->must;
	Conv<double>::ambiguous = false;
	Outcome w = interpret(opts, params, rest.get(), delims, a, start);
	if (Conv<double>::ambiguous) DISCARD();
	g.label(w.ok ? "accepted" : "rejected");
	g.nontrivial(a.size() > start + 1);
	std::vector<const char*> argv;
	for (auto& s : a) argv.push_back(s.c_str());
	argv.push_back(0);
	bool b;
	std::unique_ptr<cybozu::Option> copy;
	cybozu::Option *q = &o;
	if (g.chance(1, 8)) { copy.reset(new cybozu::Option(o)); q = copy.get(); }
	b = g.chance(1, 3) ? q->parse((int)a.size(), argv.data(), (int)start, "name") : q->parse((int)a.size(), argv.data(), (int)start);
	REQUIRE_MSG(b == w.ok, "parse returned " << b << " want " << w.ok);
	if (!b) return;
	for (auto& p : opts) { REQUIRE_MSG(p->same(), "value of option -" << p->name << " differs, want " << p->str()); REQUIRE_EQ(p->isSetIn(*q), p->isSet); }
	for (auto& p : params) { REQUIRE_MSG(p->same(), "value of " << p->name << " differs, want " << p->str()); REQUIRE_EQ(p->isSetIn(*q), p->isSet); }
	if (rest) { REQUIRE_MSG(rest->same(), "rest differs, want " << rest->str()); REQUIRE_EQ(rest->isSetIn(*q), rest->isSet); }
	REQUIRE_EQ(q->getNextPositionOfDelimiter(), w.next);
	if (keep && !delims.empty()) REQUIRE(after == w.after);
	// the printed form
	std::ostringstream got, want;
	got << *q;
	for (auto& p : params) want << p->name << "=" << p->str() << "\n";
	if (rest) want << "remains=" << rest->str() << "\n";
	for (auto& p : opts) want << p->name << "=" << p->str() << (p->isSet ? " (set)" : " (default)") << "\n";
	REQUIRE_STREQ(got.str(), want.str());
	int dummy = 0;
	REQUIRE_THROWS(q->isSet(&dummy));
}
PROP_W(setup_errors, 0.2)
{
	quiet();
	cybozu::Option o;
	int a, b; std::vector<int> v;
	std::string n = g.text(1, "ab");
	o.appendOpt(&a, 1, n.c_str());
	REQUIRE_THROWS(o.appendOpt(&b, 1, n.c_str()));
	std::string num = g.text(1, "0123456789") + g.text(g.below(3), "ab1");
	REQUIRE_THROWS(o.appendOpt(&b, 1, num.c_str()));
	if (g.boolean()) o.appendParamOpt(&a, 3, "p"); else o.appendParamVec(&v, "p");
	REQUIRE_THROWS(o.appendParam(&b, "q"));
	REQUIRE_THROWS(o.appendParamOpt(&b, 1, "q"));
	REQUIRE_THROWS(o.appendParamVec(&v, "q"));
	const char *argv[] = { "prog", 0 };
	REQUIRE(!o.parse(0, argv));
	REQUIRE(!o.parse(1, argv, 2 + (int)g.below(3)));
	g.nontrivial();
}
PROP_W(help, 0.05)
{
	quiet();
	bool withHelp = !g.chance(1, 4), delim = g.boolean();
	std::string name = g.pick(std::vector<std::string>{ "h", "help", "?", "-help" });
	std::vector<std::string> args; size_t n = 1 + g.below(4);
	for (size_t i = 0; i < n; i++) args.push_back(g.chance(1, 3) ? "-" + name : g.pick(std::vector<std::string>{ "-h", "-", "-hh", "-x", "3", "p", "--", "-1", "-help", "-H" }));
	g.note() << "help " << (withHelp ? name : "none") << (delim ? " delimiter" : "") << ":"; for (auto& a : args) g.note() << " " << a;
	int want = 8; // the process goes on, parse returns true
	for (size_t i = 0; i < n && want == 8; i++) {
		const std::string& a = args[i];
		if (delim && a == "--") break;
		if (a[0] != '-' || (a.size() > 1 && isdigit((unsigned char)a[1]))) continue;
		if (withHelp && a.substr(1) == name) want = 0;
		else if (a != "-x") want = 7;
		else { i++; int v; if (i == n || !Conv<int>::conv(args[i], v)) want = 7; }
	}
	fflush(0);
	pid_t pid = fork();
	if (pid == 0) {
		cybozu::Option o;
		int x; std::vector<std::string> rest;
		o.appendOpt(&x, 1, "x");
		o.appendParamVec(&rest, "rest");
		if (delim) o.setDelimiter("--");
		if (withHelp) o.appendHelp(name.c_str());
		std::vector<const char*> argv; argv.push_back("prog"); for (auto& a : args) argv.push_back(a.c_str()); argv.push_back(0);
		bool b = o.parse((int)n + 1, argv.data());
		_exit(b ? 8 : 7);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	REQUIRE(WIFEXITED(st));
	REQUIRE_EQ(WEXITSTATUS(st), want);
	g.nontrivial();
}

PROP_W(usage, 0.3)
{
	// the usage names every parameter, option and help text once, in order of declaration
	quiet();
	cybozu::Option o;
	std::vector<std::unique_ptr<Var>> opts, params;
	std::unique_ptr<Var> rest;
	std::string desc = g.text(g.below(6), "abc %d"), own = g.chance(1, 3) ? g.text(1 + g.below(6), "xyz %s") : "";
	if (!desc.empty()) o.setDescription(desc);
	bool showOpt = true;
	if (!own.empty()) { if (g.boolean()) { o.setUsage(own); showOpt = false; } else { showOpt = g.boolean(); o.setUsage(own, showOpt); } }
	for (size_t i = 0, n = g.below(5); i < n; i++) {
		Var *v = g.below(4) == 0 ? (Var*)new Flag : g.below(3) == 0 ? (Var*)new Vec<std::vector<int>> : single(g);
		v->name = "opt" + std::to_string(i);
		v->help = g.text(g.below(5), "hp %s");
		opts.emplace_back(v);
		v->opt(o, g);
	}
	for (size_t i = 0, n = g.below(3); i < n; i++) { Var *v = single(g); v->name = "param" + std::to_string(i); v->help = g.text(g.below(4), "q "); params.emplace_back(v); v->param(o, 0, g); }
	if (g.boolean()) { rest.reset(new Vec<std::vector<int>>); rest->name = "rest..."; rest->help = g.text(g.below(4), "r "); rest->param(o, 2, g); }
	bool help = g.boolean();
	if (help) { if (g.boolean()) o.appendHelp("h"); else o.appendHelp("h", ": show this message"); }
	std::string want, dir = g.pick(std::vector<std::string>{"", "/", "./", "/usr/bin/", "a\\"});
	if (g.chance(1, 8)) { for (size_t n = 1 + g.below(400); n > 0; n--) dir += g.text(1, "ab/\\."); dir += g.boolean() ? "/" : "\\"; }
	const std::string prog = dir + "prog";
	const char *argv[] = { prog.c_str(), 0 };
	captured([&]{ o.parse(1, argv); });
	if (!desc.empty()) want += desc + "\n";
	if (own.empty()) {
		want += "usage:prog";
		if (!opts.empty()) want += " [opt]";
		for (auto& p : opts) if (p->must) want += " -" + p->name + (p->kind == 0 ? " " : p->kind == 1 ? " para" : " para...");
		for (auto& p : params) want += " " + p->name;
		if (rest) want += " " + rest->name;
		want += "\n";
	} else want += own + "\n";
	if (showOpt) {
		for (auto& p : params) if (!p->help.empty()) want += "  " + p->name + " " + p->help + "\n";
		if (rest && !rest->help.empty()) want += "  " + rest->name + " " + rest->help + "\n";
		if (help) want += "  -h : show this message\n";
		for (auto& p : opts) want += "  -" + p->name + " " + p->help + (p->must ? " (must)" : "") + "\n";
	}
	std::string got = captured([&]{ o.usage(); });
	g.note() << "usage of " << opts.size() << " options " << params.size() << " parameters:\n" << got;
	REQUIRE_STREQ(got, want);
	g.nontrivial();
}
