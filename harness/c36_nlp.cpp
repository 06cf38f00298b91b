// tf-idf against direct counting; pLSI against the EM recursion and the laws of probability
#include <pbt.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <math.h>
#include <stdio.h>
#include <unistd.h>
#include <cybozu/string_operation.hpp>
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/nlp/random.hpp>
static int quietPrint(FILE *, const char *, ...) { return 0; }
#define fprintf quietPrint
#include <cybozu/nlp/tfidf.hpp>
#undef fprintf
#include <cybozu/nlp/plsi.hpp>
using pbt::G;
using namespace cybozu::nlp;

static bool near(double a, double b, double eps = 1e-6)
{
	if (!std::isfinite(a) || !std::isfinite(b)) return false;
	return fabs(a - b) <= eps * std::max(fabs(a), fabs(b)) + 1e-11;
}
static std::string lower(std::string s)
{
	for (char& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32);
	return s;
}
static std::string upper(std::string s)
{
	for (char& c : s) if (c >= 'a' && c <= 'z') c = char(c - 32);
	return s;
}
typedef std::vector<std::vector<std::string>> Docs;
static Docs genDocs(G& g, std::vector<std::string>& vocab)
{
	size_t nv = 1 + g.size(12);
	for (size_t i = 0; i < nv; i++) {
		std::string w = g.text(g.below(5), "abcdeXYZ\xe3\x81\x82-1");
		vocab.push_back(lower(w) + (g.boolean() ? "k" : ""));
	}
	Docs docs;
	size_t nd = g.size(25);
	for (size_t d = 0; d < nd; d++) {
		std::vector<std::string> doc;
		size_t n = g.chance(1, 8) ? 0 : g.size(20);
		for (size_t i = 0; i < n; i++) {
			std::string w = g.pick(vocab);
			switch (g.below(3)) {
			case 0: break;
			case 1: w = upper(w); break;
			default: if (!w.empty()) w[0] = upper(w)[0]; break;
			}
			doc.push_back(w);
		}
		docs.push_back(doc);
	}
	return docs;
}

PROP(df)
{
	std::vector<std::string> vocab;
	Docs docs = genDocs(g, vocab);
	Df df;
	std::map<std::string, int> want;
	bool caseMix = false;
	for (auto& doc : docs) {
		std::set<std::string> in, raw;
		g.note() << "[";
		for (auto& w : doc) { g.note() << " " << w; df.append(w); in.insert(lower(w)); raw.insert(w); }
		g.note() << "] ";
		df.endDoc();
		if (raw.size() != in.size()) caseMix = true;
		for (auto& w : in) want[w]++;
	}
	g.nontrivial(docs.size() > 2 && caseMix);
	REQUIRE_EQ(df.docNum_, (int)docs.size());
	int lim = (int)g.below(5);
	double rate = g.pick(std::vector<double>{1.0, 0.98, 0.5, 0.25, 0.0});
	g.note() << "lowerLimit=" << lim << " rate=" << rate;
	if (g.chance(1, 4)) { lim = 3; rate = 0.98; df.term(); }
	else df.term(lim, rate);
	std::vector<int> freqs;
	for (auto& p : want) if (p.second > lim) freqs.push_back(p.second);
	std::sort(freqs.begin(), freqs.end());
	freqs.resize((size_t)(freqs.size() * rate));
	std::ostringstream os;
	os.precision(17);
	os << df;
	// each line : word, document frequency, idf ; ascending frequency
	std::istringstream is(os.str());
	std::string line;
	std::set<std::string> seen;
	size_t k = 0;
	while (std::getline(is, line)) {
		size_t a = line.find('\t'), b = line.find('\t', a + 1);
		REQUIRE_MSG(a != std::string::npos && b != std::string::npos, "bad line " << line);
		std::string w = line.substr(0, a);
		int freq = atoi(line.c_str() + a + 1);
		double idf = atof(line.c_str() + b + 1);
		REQUIRE_MSG(seen.insert(w).second, "word twice " << w);
		REQUIRE_MSG(want.count(w) == 1, "unknown word " << w);
		REQUIRE_MSG(want[w] == freq, "frequency of " << w << " is " << want[w] << " but " << freq);
		REQUIRE_MSG(k < freqs.size(), "too many words");
		REQUIRE_EQ(freq, freqs[k]);
		REQUIRE_MSG(near(idf, log(double(docs.size()) / freq)), "idf " << idf << " of " << w);
		k++;
	}
	REQUIRE_EQ(k, freqs.size());
}

PROP(tfidf)
{
	std::vector<std::string> vocab;
	Docs docs = genDocs(g, vocab);
	// keyword file
	std::vector<std::string> keys;
	std::string name = "c36_" + std::to_string(getpid()) + ".txt";
	{
		std::ofstream ofs(name.c_str(), std::ios::binary);
		size_t n = g.size(vocab.size() + 2);
		for (size_t i = 0; i < n; i++) {
			std::string w = g.chance(1, 6) ? "zz" + g.text(2, "ab") : g.pick(vocab);
			if (g.chance(1, 30)) { // the list ends at a line without a frequency
				ofs << w << "\nlate\t3\n";
				g.note() << "(cut)";
				break;
			}
			ofs << w << '\t' << g.below(100);
			if (g.boolean()) ofs << '\t' << 1.5;
			if (i + 1 < n || g.boolean()) ofs << '\n';
			if (std::find(keys.begin(), keys.end(), w) == keys.end()) keys.push_back(w);
		}
	}
	TfIdf t;
	REQUIRE(!t.loadKeywordFile(name + ".none"));
	REQUIRE(t.loadKeywordFile(name));
	remove(name.c_str());
	for (auto& k : keys) g.note() << k << ",";
	REQUIRE_EQ(t.id2word_.size(), keys.size());
	for (size_t i = 0; i < keys.size(); i++) REQUIRE_EQ(t.id2word_[i], keys[i]);
	std::vector<std::map<int, int>> tf;
	std::vector<int> dfv(keys.size());
	for (auto& doc : docs) {
		std::map<int, int> m;
		g.note() << "[";
		for (auto& w : doc) {
			g.note() << " " << w;
			t.append(w);
			auto it = std::find(keys.begin(), keys.end(), lower(w));
			if (it != keys.end()) m[int(it - keys.begin())]++;
		}
		g.note() << "] ";
		t.endDoc();
		for (auto& p : m) dfv[p.first]++;
		if (!m.empty()) tf.push_back(m); // a document without a keyword gives no vector
	}
	g.nontrivial(tf.size() > 2 && tf.size() != keys.size());
	t.term();
	REQUIRE_EQ(t.sv_.size(), tf.size());
	for (size_t d = 0; d < tf.size(); d++) {
		const DoubleSvec& v = t.sv_[d];
		auto w = tf[d].begin();
		for (DoubleSvec::const_iterator i = v.begin(), ie = v.end(); i != ie; ++i, ++w) {
			REQUIRE_MSG(w != tf[d].end(), "document " << d << " has too many words");
			REQUIRE_EQ((int)i->pos(), w->first);
			double want = w->second * log(double(tf.size()) / dfv[w->first]);
			REQUIRE_MSG(near(i->val(), want), "document " << d << " word " << w->first << " : " << i->val() << " must be " << want);
		}
		REQUIRE_MSG(w == tf[d].end(), "document " << d << " lost a word");
	}
}

struct Model {
	size_t K, M, N;
	std::vector<double> z;
	std::vector<std::vector<double>> u, v;
	std::vector<std::pair<size_t, size_t>> obs; // item, user
	void init(size_t k, size_t m, size_t n)
	{
		K = k; M = m; N = n;
		z.assign(K, 1.0 / K);
		u.assign(K, std::vector<double>(M, 1.0 / M));
		v.assign(K, std::vector<double>(N));
		UniformRandomGenerator r(0.25, 0.75);
		for (auto& vk : v) {
			double s = 0;
			for (double& x : vk) { x = r.getDouble(); s += x; }
			for (double& x : vk) x /= s;
		}
	}
	double joint(size_t i, size_t x) const
	{
		double p = 0;
		for (size_t k = 0; k < K; k++) p += z[k] * u[k][x] * v[k][i];
		return p;
	}
	double pu(size_t x) const { double p = 0; for (size_t k = 0; k < K; k++) p += z[k] * u[k][x]; return p; }
	double pi(size_t i) const { double p = 0; for (size_t k = 0; k < K; k++) p += z[k] * v[k][i]; return p; }
	double pii(size_t i, size_t j) const { double p = 0; for (size_t k = 0; k < K; k++) p += z[k] * v[k][i] * v[k][j]; return p; }
	double step(double beta)
	{
		std::vector<double> nz(K);
		std::vector<std::vector<double>> nu(K, std::vector<double>(M)), nv(K, std::vector<double>(N));
		double like = 0;
		for (auto& o : obs) {
			std::vector<double> q(K);
			double s = 0;
			for (size_t k = 0; k < K; k++) { q[k] = pow(z[k] * u[k][o.second] * v[k][o.first], beta); s += q[k]; }
			like += log(s);
			for (size_t k = 0; k < K; k++) { nz[k] += q[k] / s; nu[k][o.second] += q[k] / s; nv[k][o.first] += q[k] / s; }
		}
		for (size_t k = 0; k < K; k++) {
			z[k] = nz[k] / obs.size();
			for (size_t x = 0; x < M; x++) u[k][x] = nu[k][x] / nz[k];
			for (size_t i = 0; i < N; i++) v[k][i] = nv[k][i] / nz[k];
		}
		return like;
	}
	double perplexity() const
	{
		double s = 0;
		for (auto& o : obs) s += log(joint(o.first, o.second) / pu(o.second));
		return exp(-s / obs.size());
	}
};
typedef TopScore<size_t>::Table Table;
template<class F> static void checkTable(const Table& t, size_t N, int top, F want, const char *what)
{
	std::vector<double> w;
	for (size_t i = 0; i < N; i++) w.push_back(want(i));
	const size_t len = std::min(N, (size_t)top);
	REQUIRE_EQ(t.size(), len);
	std::set<size_t> seen;
	for (size_t r = 0; r < t.size(); r++) {
		REQUIRE_MSG(t[r].idx < N && seen.insert(t[r].idx).second, what << ": index " << t[r].idx);
		REQUIRE_MSG(near(t[r].score, w[t[r].idx]), what << ": item " << t[r].idx << " has " << t[r].score << " must be " << w[t[r].idx]);
		if (r > 0) REQUIRE_MSG(t[r].score <= t[r - 1].score, what << ": order");
	}
	std::sort(w.rbegin(), w.rend());
	for (size_t r = 0; r < t.size(); r++) REQUIRE_MSG(near(t[r].score, w[r]), what << ": rank " << r << " has " << t[r].score << " must be " << w[r]);
}

PROP_W(plsi, 2)
{
	// matrix item -> users, each with at least one observation
	const bool big = g.chance(1, 60); // many observations, each of them rare
	size_t N = 1 + g.size(8), M = 1 + g.size(8);
	if (big) { N = 1001 + g.below(500); M = 2 + g.below(8); }
	std::vector<int> itemKey, userKey;
	for (size_t i = 0; i < N; i++) itemKey.push_back((int)(i * 7) - 9);
	for (size_t i = 0; i < M; i++) userKey.push_back((int)(i * 5) - 12);
	for (size_t i = N; i > 1; i--) std::swap(itemKey[i - 1], itemKey[g.below(i)]);
	for (size_t i = M; i > 1; i--) std::swap(userKey[i - 1], userKey[g.below(i)]);
	std::vector<std::set<size_t>> at(N);
	size_t density = 1 + g.below(4);
	for (size_t i = 0; i < N; i++) for (size_t x = 0; x < M; x++) if (g.below(4) < density) at[i].insert(x);
	for (size_t i = 0; i < N; i++) if (at[i].empty()) at[i].insert(g.below(M));
	for (size_t x = 0; x < M; x++) {
		bool used = false;
		for (auto& s : at) if (s.count(x)) used = true;
		if (!used) at[g.below(N)].insert(x);
	}
	Plsi p;
	Model m;
	g.note() << "items " << N << " users " << M << ":";
	for (size_t x = 0; x < M; x++) REQUIRE_EQ(p.get_user_id(userKey[x]), x);
	for (size_t i = 0; i < N; i++) {
		BoolSVec& v = p.getItem(itemKey[i]);
		g.note() << " {";
		for (size_t x : at[i]) { v.push_back((unsigned)p.get_user_id(userKey[x]), true); m.obs.emplace_back(i, x); g.note() << " " << x; }
		g.note() << "}";
	}
	for (size_t i = 0; i < N; i++) { REQUIRE_EQ(p.get_item_id(itemKey[i]), i); REQUIRE_EQ(p.get_item_key(i), itemKey[i]); }
	std::vector<double> cntU(M), cntI(N);
	for (auto& o : m.obs) { cntI[o.first]++; cntU[o.second]++; }
	const double n = (double)m.obs.size();
	size_t rounds = g.chance(1, 3) ? 2 : 1;
	for (size_t round = 0; round < rounds; round++) {
		size_t K = 1 + g.below(5);
		bool plain = g.chance(2, 3);
		size_t steps = g.below(9);
		g.note() << " learn " << K << " topics " << steps << " steps";
		p.startLearning((int)K);
		m.init(K, M, N);
		double prev = -HUGE_VAL;
		bool moved = false;
		for (size_t s = 0; s < steps; s++) {
			double beta = plain ? 1 : g.pick(std::vector<double>{1, 0.9, 0.75, 0.5, 1.25});
			g.note() << " " << beta;
			double want = m.step(beta);
			double like = beta == 1 && g.boolean() ? p.step() : p.step(beta);
			REQUIRE_MSG(near(like, want), "step " << s << " returns " << like << " must be " << want);
			if (plain) {
				REQUIRE_MSG(like >= prev - 1e-9 * fabs(prev), "likelihood falls from " << prev << " to " << like);
				prev = like;
			}
			moved = true;
		}
		if (moved) {
			// the marginals of the model are those of the data
			for (size_t i = 0; i < N; i++) REQUIRE_MSG(near(m.pi(i), cntI[i] / n), "the reference model is wrong");
		}
		g.nontrivial(K > 1 && steps > 1 && N > 2 && M > 2);
		double pp = p.perplexity();
		REQUIRE_MSG(near(pp, m.perplexity()), "perplexity " << pp << " must be " << m.perplexity());
		int top = g.boolean() ? 10 : 1 + (int)g.below(12);
		for (size_t x = big ? g.below(M) : 0, k = 0; x < M && !(big && k == 1); x++, k++) {
			Table t = top == 10 ? p.search_items(userKey[x]) : p.search_items(userKey[x], top);
			checkTable(t, N, top, [&](size_t i) { return m.joint(i, x) / m.pu(x); }, "search_items");
			if (N <= (size_t)top) { double s = 0; for (auto& e : t) s += e.score; REQUIRE_MSG(near(s, 1), "sum of p(item|user) is " << s); }
		}
		for (size_t a = big ? g.below(N) : 0, k = 0; a < N && !(big && k == 2); a++, k++) {
			checkTable(p.similar_items(itemKey[a], Plsi::JOINT, top), N, top, [&](size_t i) { return m.pii(i, a); }, "joint");
			if (top == 10) checkTable(p.similar_items(itemKey[a], Plsi::JOINT), N, top, [&](size_t i) { return m.pii(i, a); }, "joint, ten items");
			checkTable(p.similar_items(itemKey[a], Plsi::CONDITIONAL, top), N, top, [&](size_t i) { return m.pii(i, a) / m.pi(a); }, "conditional");
			checkTable(p.similar_items(itemKey[a], Plsi::POSTERIOR, top), N, top, [&](size_t i) { return m.pii(i, a) / m.pi(i); }, "posterior");
		}
		// unknown keys do not change anything
		if (g.boolean()) {
			REQUIRE(p.search_items(1000 + (int)g.below(5)).empty());
			REQUIRE(p.similar_items(1000 + (int)g.below(5), g.pick(std::vector<Plsi::SEARCH_TYPE>{Plsi::JOINT, Plsi::CONDITIONAL, Plsi::POSTERIOR})).empty());
			REQUIRE(near(p.perplexity(), pp, 1e-12));
		}
	}
}

PROP(uniform_random)
{
	double a = (double)g.irange(-100, 100) / 4, b = a + 0.25 * (1 + g.below(1000));
	int seed = (int)g.irange(-5, 1000);
	g.note() << "[" << a << ", " << b << ") seed " << seed;
	UniformRandomGenerator x(a, b, seed), y(a, b);
	y.init(seed);
	g.nontrivial();
	cybozu::XorShift ref(seed);
	// 53 random bits
	auto unit = [&ref]() { double hi = ref.get32() >> 5, lo = ref.get32() >> 6; return (hi * 67108864.0 + lo) / 9007199254740992.0; };
	for (int i = 0; i < 20; i++) {
		double v = x.getDouble();
		double u = unit();
		REQUIRE_MSG(near(v, a + (b - a) * u, 1e-13), "value " << v << " must be " << a + (b - a) * u);
		ref.get32(); ref.get64();
		REQUIRE_MSG(v >= a && v < b, "out of range " << v);
		REQUIRE(v == y.getDouble());
		REQUIRE_EQ(x.get32(), y());
		REQUIRE_EQ(x.get64(), y.get64());
	}
	NormalRandomGenerator n1(a, b - a, seed), n2(a, b - a);
	n2.init(seed);
	ref.init(seed);
	for (int i = 0; i < 20; i++) {
		double v = n1.get();
		double sum = -6;
		for (int j = 0; j < 12; j++) sum += unit();
		REQUIRE_MSG(near(v, sum * (b - a) + a, 1e-11), "normal value " << v << " must be " << sum * (b - a) + a);
		REQUIRE(v == n2.get());
		REQUIRE_MSG(fabs(v - a) <= 6 * (b - a) + 1e-9, "out of range " << v);
	}
	// each quarter of the range is hit
	int q[4] = {0, 0, 0, 0};
	for (int i = 0; i < 400; i++) { double v = x.getDouble(); q[std::min(3, (int)((v - a) / (b - a) * 4))]++; }
	for (int c : q) REQUIRE_MSG(c > 30 && c < 180, "a quarter of the range is hit " << c << " times of 400");
}
