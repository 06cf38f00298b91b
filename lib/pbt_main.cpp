#include "pbt.h"
namespace pbt {

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
// runs one case ; 1 pass, 2 fail, 3 discard
static int runCase(const Prop& p, G& g, std::string& msg)
{
	try {
		p.fn(g);
		return 1;
	} catch (Discard&) {
		return 3;
	} catch (Failure& f) {
		msg = f.msg;
		return 2;
	} catch (std::exception& e) {
		msg = std::string("unexpected exception: ") + e.what();
		return 2;
	} catch (...) {
		msg = "unexpected exception of unknown type";
		return 2;
	}
}

struct WorkerSlot {
	volatile uint32_t prop;
	volatile uint64_t iter;
	volatile uint64_t tick; // advances by one for each case
	volatile uint32_t done; // 1 finished, 2 check failure in (prop, iter)
	volatile uint64_t evals, discards;
	volatile uint64_t nHist; // cases started
	struct { uint32_t prop; uint64_t iter; } hist[4096]; // the last ones
};

static int g_scale = 1;
static uint64_t g_seed = 1;
static std::string g_tmp;
static double g_hang = 60;

static uint64_t caseSeed(const Prop& p, int worker, uint64_t iter)
{
	return mix64(mix64(g_seed * 1000003 + worker) ^ hashStr(p.name) ^ mix64(iter * 0x5851F42D4C957F2Dull));
}

static void quiet(const std::string& log)
{
	int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0) fd = open("/dev/null", O_WRONLY);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
	int n = open("/dev/null", O_RDWR);
	if (n >= 0) { dup2(n, 0); dup2(n, 1); close(n); }
}

static void worker(int w, int nWorker, double sec, uint64_t maxCases, WorkerSlot *slot)
{
	quiet(g_tmp + "/w" + std::to_string(w) + ".log");
	std::vector<Prop>& ps = props();
	std::vector<uint64_t> iter(ps.size(), 0);
	std::vector<double> used(ps.size(), 0);
	std::vector<std::unordered_set<uint64_t> > seen(ps.size());
	std::map<std::string, uint64_t> labels;
	std::vector<uint64_t> nontriv(ps.size(), 0);
	std::vector<std::vector<uint64_t> > sampleIter(ps.size());
	double start = now(), t = start;
	while (maxCases == 0 || slot->evals < maxCases) {
		size_t k = (size_t)w % ps.size();
		for (size_t i = 0; i < ps.size(); i++) if (used[i] / ps[i].weight < used[k] / ps[k].weight) k = i;
		if (t - start >= sec) { // every property gets at least a few cases
			size_t i = (size_t)w;
			while (i < ps.size() && iter[i] > 0) i += (size_t)nWorker;
			if (i >= ps.size()) break;
			k = i;
		}
		const double batchStart = t;
		// a small batch of the same property
		for (int b = 0; b < 8; b++) {
			slot->prop = (uint32_t)k;
			slot->iter = iter[k];
			slot->tick = slot->tick + 1;
			slot->hist[slot->nHist % 4096].prop = (uint32_t)k;
			slot->hist[slot->nHist % 4096].iter = iter[k];
			slot->nHist = slot->nHist + 1;
			G g(caseSeed(ps[k], w, iter[k]));
			g.scale = g_scale;
			std::string msg;
			int r = runCase(ps[k], g, msg);
			if (r == 2) { slot->done = 2; _exit(0); }
			if (r == 3) slot->discards = slot->discards + 1;
			else {
				slot->evals = slot->evals + 1;
				for (size_t i = 0; i < g.labels_.size(); i++) labels[std::string(ps[k].name) + "/" + g.labels_[i]]++;
				if (g.nontrivial_) {
					nontriv[k]++;
					if (seen[k].size() < 400000) {
						uint64_t h = mix64(k);
						const std::vector<uint64_t>& c = g.rec();
						for (size_t i = 0; i < c.size(); i++) h = mix64(h ^ c[i]) + i;
						seen[k].insert(h);
					}
					if (sampleIter[k].size() < 2) sampleIter[k].push_back(iter[k]);
				}
			}
			iter[k]++;
			double t2 = now();
			used[k] += t2 - t;
			t = t2;
			if (t - start >= sec || t - batchStart > 0.3) break;
		}
	}
	std::string fn = g_tmp + "/w" + std::to_string(w) + ".stat";
	FILE *fp = fopen(fn.c_str(), "w");
	if (fp) {
		for (size_t k = 0; k < ps.size(); k++) {
			fprintf(fp, "P %zu %llu %llu\n", k, (unsigned long long)iter[k], (unsigned long long)nontriv[k]);
			for (size_t i = 0; i < sampleIter[k].size(); i++) fprintf(fp, "S %zu %llu\n", k, (unsigned long long)sampleIter[k][i]);
		}
		for (auto& l : labels) fprintf(fp, "L %s %llu\n", l.first.c_str(), (unsigned long long)l.second);
		fclose(fp);
	}
	fn = g_tmp + "/w" + std::to_string(w) + ".hash";
	fp = fopen(fn.c_str(), "w");
	if (fp) {
		for (size_t k = 0; k < ps.size(); k++) for (uint64_t h : seen[k]) { fwrite(&h, 8, 1, fp); }
		fclose(fp);
	}
	slot->done = 1;
	_exit(0);
}

struct Outcome {
	int status; // 1 pass 2 fail 3 discard 4 crash 5 hang
	std::string msg, note, err;
	std::vector<uint64_t> choices;
	bool nontrivial;
	bool bad() const { return status == 2 || status >= 4; }
};

static std::string readTail(const std::string& fn, size_t lim)
{
	std::string s;
	FILE *fp = fopen(fn.c_str(), "rb");
	if (!fp) return s;
	char buf[4096];
	size_t n;
	while ((n = fread(buf, 1, sizeof(buf), fp)) > 0 && s.size() < 200000) s.append(buf, n);
	fclose(fp);
	if (s.size() > lim) s.resize(lim);
	return s;
}

static SharedCase *g_sc;

typedef std::vector<std::pair<size_t, uint64_t> > Seq; // cases run one after another in the same process

// runs one case in a forked child ; either from a seed or from choices
static Outcome runForked(size_t k, const std::vector<uint64_t> *choices, uint64_t seed, double hang, const std::string *bytes = 0, const Seq *seq = 0)
{
	Outcome o;
	SharedCase *sc = g_sc;
	sc->nChoices = 0; sc->status = 0; sc->nontrivial = 0; sc->msg[0] = 0; sc->note[0] = 0;
	std::string log = g_tmp + "/case.log";
	fflush(0);
	pid_t pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		quiet(log);
		std::string msg;
		int r;
		if (seq) {
			r = 1;
			for (size_t i = 0; i < seq->size() && r != 2; i++) {
				G g((*seq)[i].second);
				g.scale = g_scale;
				if (i + 1 == seq->size()) g.setShared(sc);
				r = runCase(props()[(*seq)[i].first], g, msg);
			}
		} else if (bytes) {
			G g((const uint8_t*)bytes->data(), bytes->size());
			g.scale = g_scale;
			g.setShared(sc);
			r = runCase(props()[k], g, msg);
		} else if (choices) {
			G g(*choices);
			g.scale = g_scale;
			g.setShared(sc);
			r = runCase(props()[k], g, msg);
		} else {
			G g(seed);
			g.scale = g_scale;
			g.setShared(sc);
			r = runCase(props()[k], g, msg);
		}
		snprintf(sc->msg, sizeof(sc->msg), "%s", msg.c_str());
		sc->status = r;
		_exit(0);
	}
	double start = now();
	int st = 0;
	bool hung = false;
	unsigned us = 200;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (r < 0 && errno != EINTR) break;
		if (now() - start > hang) {
			hung = true;
			kill(-pid, SIGKILL);
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			break;
		}
		usleep(us);
		if (us < 5000) us *= 2;
	}
	o.nontrivial = sc->nontrivial != 0;
	o.note = sc->note;
	o.choices.assign(sc->choices, sc->choices + std::min<uint32_t>((uint32_t)sc->nChoices, 1u << 17));
	if (hung) { o.status = 5; o.msg = "hang: the case did not finish"; }
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sc->status) { o.status = sc->status; o.msg = sc->msg; }
	else {
		o.status = 4;
		char b[64];
		if (WIFSIGNALED(st)) snprintf(b, sizeof(b), "crash: signal %d", WTERMSIG(st));
		else snprintf(b, sizeof(b), "abnormal exit: status %d", WEXITSTATUS(st));
		o.msg = b;
		o.err = readTail(log, 6000);
		size_t p = o.err.find("ERROR: ");
		if (p == std::string::npos) p = o.err.find("runtime error: ");
		if (p != std::string::npos) o.msg += " : " + o.err.substr(p, o.err.find('\n', p) - p);
	}
	return o;
}

static Outcome shrink(size_t k, Outcome best, double budget)
{
	double start = now();
	int tries = 0;
	double hang = best.status == 5 ? 6 : 20;
	int maxTries = best.status == 5 ? 8 : 3000;
	auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
		if (now() - start > budget || tries >= maxTries) return false;
		tries++;
		Outcome o = runForked(k, &c, 0, hang);
		if (!o.bad()) return false;
		// strictly simpler: shorter, or same length and lexicographically smaller
		if (o.choices.size() > best.choices.size()) return false;
		if (o.choices.size() == best.choices.size() && !(o.choices < best.choices)) return false;
		best = o;
		return true;
	};
	bool progress = true;
	while (progress && now() - start < budget && tries < maxTries) {
		progress = false;
		for (size_t chunk = std::max<size_t>(1, best.choices.size() / 2); chunk >= 1; chunk /= 2) {
			for (size_t i = 0; i + chunk <= best.choices.size();) {
				std::vector<uint64_t> c = best.choices;
				c.erase(c.begin() + i, c.begin() + i + chunk);
				if (attempt(c)) progress = true; else i += chunk;
				if (now() - start > budget || tries >= maxTries) break;
			}
			if (chunk == 1) break;
		}
		for (size_t i = 0; i < best.choices.size(); i++) {
			if (now() - start > budget || tries >= maxTries) break;
			if (best.choices[i] == 0) continue;
			std::vector<uint64_t> c = best.choices;
			c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			// binary search toward the smallest failing value
			uint64_t lo = 0;
			while (i < best.choices.size() && best.choices[i] - lo > 1) {
				c = best.choices;
				uint64_t mid = lo + (best.choices[i] - lo) / 2;
				c[i] = mid;
				if (attempt(c)) progress = true; else lo = mid;
				if (now() - start > budget || tries >= maxTries) break;
			}
			// smaller size together with dropping one of the following choices
			if (i < best.choices.size() && best.choices[i] > 0) {
				for (size_t j = i + 1; j < best.choices.size() && j < i + 24; j++) {
					c = best.choices;
					c[i]--;
					c.erase(c.begin() + j);
					if (attempt(c)) { progress = true; break; }
				}
			}
		}
	}
	return best;
}

// removes cases as long as the sequence still fails
static Outcome shrinkSeq(Seq& seq, Outcome best, double budget)
{
	double start = now();
	for (size_t chunk = std::max<size_t>(1, seq.size() / 2);; chunk /= 2) {
		for (size_t i = 0; i < seq.size() && now() - start < budget;) {
			Seq t = seq;
			t.erase(t.begin() + i, t.begin() + std::min(i + chunk, t.size()));
			Outcome o;
			if (!t.empty()) o = runForked(0, 0, 0, 30, 0, &t);
			if (!t.empty() && o.bad()) { seq.swap(t); best = o; } else i += chunk;
		}
		if (chunk <= 1) break;
	}
	return best;
}

static std::string js(const std::string& s)
{
	std::string o = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

static void putFailure(FILE *fp, const Outcome& o, size_t k, const Seq *seq = 0)
{
	fprintf(fp, "{\"prop\": %s, \"status\": %d, \"msg\": %s, \"note\": %s, \"stderr\": %s, \"scale\": %d, \"choices\": [", js(props()[k].name).c_str(), o.status, js(o.msg).c_str(), js(o.note.substr(0, 20000)).c_str(), js(o.err).c_str(), g_scale);
	for (size_t i = 0; i < o.choices.size(); i++) fprintf(fp, "%s%llu", i ? "," : "", (unsigned long long)o.choices[i]);
	fprintf(fp, "]");
	if (seq) {
		fprintf(fp, ", \"seq\": [");
		for (size_t i = 0; i < seq->size(); i++) fprintf(fp, "%s\"%s %llu\"", i ? "," : "", props()[(*seq)[i].first].name, (unsigned long long)(*seq)[i].second);
		fprintf(fp, "]");
	}
	fprintf(fp, "}");
}

static int mainImpl(int argc, char **argv)
{
	double sec = 10;
	int nWorker = 8;
	uint64_t maxCases = 0;
	std::string out, replay, only, bytesFile;
	int flaky = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--sec") sec = atof(next().c_str());
		else if (a == "--workers") nWorker = atoi(next().c_str());
		else if (a == "--seed") g_seed = strtoull(next().c_str(), 0, 10);
		else if (a == "--scale") g_scale = atoi(next().c_str());
		else if (a == "--max") maxCases = strtoull(next().c_str(), 0, 10);
		else if (a == "--out") out = next();
		else if (a == "--tmp") g_tmp = next();
		else if (a == "--hang") g_hang = atof(next().c_str());
		else if (a == "--only") only = next();
		else if (a == "--flaky") flaky = atoi(next().c_str());
		else if (a == "--bytes") bytesFile = next(); // input found by the fuzzer
		else if (a == "--replay") replay = next(); // "prop c c c ..." in a file
		else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
	}
	// not what the caller happens to ignore or block (nohup)
	for (int sg : { SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGALRM, SIGCHLD, SIGUSR1, SIGUSR2, SIGABRT }) signal(sg, SIG_DFL);
	sigset_t none;
	sigemptyset(&none);
	sigprocmask(SIG_SETMASK, &none, 0);
	initialSigpipe() = signal(SIGPIPE, SIG_IGN);
	if (g_tmp.empty()) g_tmp = "/tmp";
	if (!only.empty()) {
		std::vector<Prop> v;
		for (auto& p : props()) if (only == p.name) v.push_back(p);
		props() = v;
	}
	g_sc = (SharedCase*)mmap(0, sizeof(SharedCase), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (g_sc == MAP_FAILED) return 2;
	if (!replay.empty()) {
		FILE *fp = fopen(replay.c_str(), "r");
		if (!fp) { perror(replay.c_str()); return 2; }
		char name[256];
		int sc = 1;
		if (fscanf(fp, "%255s %d", name, &sc) != 2) return 2;
		g_scale = sc;
		std::vector<uint64_t> c;
		unsigned long long v;
		if (!strcmp(name, "@seq")) {
			Seq seq;
			while (fscanf(fp, "%255s %llu", name, &v) == 2) for (size_t k = 0; k < props().size(); k++) if (!strcmp(props()[k].name, name)) seq.push_back(std::make_pair(k, (uint64_t)v));
			fclose(fp);
			Outcome o = runForked(0, 0, 0, 60, 0, &seq);
			printf("status=%d %s\n%s%s", o.status, o.msg.c_str(), o.note.c_str(), o.err.c_str());
			return o.bad() ? 1 : 0;
		}
		while (fscanf(fp, "%llu", &v) == 1) c.push_back(v);
		fclose(fp);
		for (size_t k = 0; k < props().size(); k++) {
			if (strcmp(props()[k].name, name)) continue;
			Outcome o;
			double t0 = now();
			for (int i = 0; i < (flaky ? 200 : 1) && (i == 0 || now() - t0 < 20); i++) { o = runForked(k, &c, 0, 20); if (o.bad()) break; }
			printf("status=%d %s\n%s%s", o.status, o.msg.c_str(), o.note.c_str(), o.err.c_str());
			return o.bad() ? 1 : 0;
		}
		fprintf(stderr, "no prop %s\n", name);
		return 2;
	}
	if (!bytesFile.empty()) {
		FILE *fp = fopen(bytesFile.c_str(), "rb");
		if (!fp) return 2;
		std::string b;
		int ch;
		while ((ch = getc(fp)) != EOF) b += (char)ch;
		fclose(fp);
		if (b.empty()) return 0;
		size_t k = (unsigned char)b[0] % props().size();
		b.erase(0, 1);
		Outcome o = runForked(k, 0, 0, 20, &b);
		if (!o.bad()) return 0;
		Outcome o2 = runForked(k, &o.choices, 0, 20);
		if (!o2.bad()) return 0;
		o = shrink(k, o2, 40);
		fp = out.empty() ? stdout : fopen(out.c_str(), "w");
		if (!fp) return 2;
		fprintf(fp, "{\"evaluations\": 1, \"discards\": 0, \"wall\": 0, \"failure\": ");
		putFailure(fp, o, k);
		fprintf(fp, "}\n");
		if (fp != stdout) fclose(fp);
		return 1;
	}
	WorkerSlot *slots = (WorkerSlot*)mmap(0, sizeof(WorkerSlot) * nWorker, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> pids(nWorker, 0);
	double start = now();
	fflush(0);
	for (int w = 0; w < nWorker; w++) {
		pid_t pid = fork();
		if (pid == 0) { setpgid(0, 0); worker(w, nWorker, sec, maxCases, &slots[w]); }
		setpgid(pid, pid);
		pids[w] = pid;
	}
	std::vector<uint64_t> lastTick(nWorker, 0);
	std::vector<double> lastTime(nWorker, now());
	int left = nWorker;
	bool found = false;
	int foundW = -1;
	while (left > 0) {
		usleep(20000);
		for (int w = 0; w < nWorker; w++) {
			if (!pids[w]) continue;
			int st;
			bool bad = false;
			if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
				if (slots[w].done != 1) bad = true;
				kill(-pids[w], SIGKILL);
				pids[w] = 0;
				left--;
			} else if (slots[w].tick != lastTick[w]) {
				lastTick[w] = slots[w].tick;
				lastTime[w] = now();
			} else if (now() - lastTime[w] > g_hang) {
				kill(-pids[w], SIGKILL);
				kill(pids[w], SIGKILL);
				waitpid(pids[w], &st, 0);
				pids[w] = 0;
				left--;
				bad = true;
			}
			if (bad && !found) { found = true; foundW = w; }
		}
		if (found) {
			for (int w = 0; w < nWorker; w++) if (pids[w]) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); pids[w] = 0; }
			break;
		}
	}
	FILE *fp = out.empty() ? stdout : fopen(out.c_str(), "w");
	if (!fp) return 2;
	uint64_t evals = 0, discards = 0;
	for (int w = 0; w < nWorker; w++) { evals += slots[w].evals; discards += slots[w].discards; }
	if (found) {
		size_t k = slots[foundW].prop;
		uint64_t seed = caseSeed(props()[k], foundW, slots[foundW].iter);
		Outcome o;
		int reps = flaky ? 60 : 3, hit = 0;
		double t0 = now();
		for (int i = 0; i < reps && (i < 3 || now() - t0 < 60); i++) {
			o = runForked(k, 0, seed, 20);
			if (o.bad()) { hit++; break; }
		}
		if (!hit && flaky) { // let the caller replay it with more contention
			o.msg = "seen in the search: " + readTail(g_tmp + "/w" + std::to_string(foundW) + ".log", 1500);
			hit = 1;
		}
		if (!hit) {
			// it may need the cases before it: state which outlives a case
			const WorkerSlot& sl = slots[foundW];
			for (uint64_t len = 2; ; len *= 8) {
				len = std::min<uint64_t>(len, std::min<uint64_t>((uint64_t)sl.nHist, 4096));
				Seq seq;
				for (uint64_t i = sl.nHist - len; i < sl.nHist; i++) seq.push_back(std::make_pair((size_t)sl.hist[i % 4096].prop, caseSeed(props()[sl.hist[i % 4096].prop], foundW, sl.hist[i % 4096].iter)));
				o = runForked(0, 0, 0, 60, 0, &seq);
				if (o.bad()) {
					o = shrinkSeq(seq, o, 40);
					k = seq.back().first;
					o.msg += " (after " + std::to_string(seq.size() - 1) + " other cases in the same process)";
					fprintf(fp, "{\"evaluations\": %llu, \"discards\": %llu, \"wall\": %.1f, \"failure\": ", (unsigned long long)evals, (unsigned long long)discards, now() - start);
					o.choices.clear();
					putFailure(fp, o, k, &seq);
					fprintf(fp, "}\n");
					if (fp != stdout) fclose(fp);
					return 1;
				}
				if (len >= sl.nHist || len >= 4096) break;
			}
			// the failure did not come back from its seed: report as unstable, with the worker's log
			fprintf(fp, "{\"evaluations\": %llu, \"discards\": %llu, \"unstable\": {\"prop\": %s, \"seed\": %llu, \"log\": %s}}\n", (unsigned long long)evals, (unsigned long long)discards, js(props()[k].name).c_str(), (unsigned long long)seed, js(readTail(g_tmp + "/w" + std::to_string(foundW) + ".log", 4000)).c_str());
			if (fp != stdout) fclose(fp);
			return 3;
		}
		if (!flaky) o = shrink(k, o, 40);
		fprintf(fp, "{\"evaluations\": %llu, \"discards\": %llu, \"wall\": %.1f, \"failure\": ", (unsigned long long)evals, (unsigned long long)discards, now() - start);
		putFailure(fp, o, k);
		fprintf(fp, "}\n");
		if (fp != stdout) fclose(fp);
		return 1;
	}
	// merge statistics
	std::vector<uint64_t> perProp(props().size(), 0), perNon(props().size(), 0);
	std::map<std::string, uint64_t> labels;
	std::vector<std::pair<size_t, std::pair<int, uint64_t> > > samples;
	std::unordered_set<uint64_t> all;
	for (int w = 0; w < nWorker; w++) {
		FILE *f = fopen((g_tmp + "/w" + std::to_string(w) + ".stat").c_str(), "r");
		if (f) {
			char line[1024];
			while (fgets(line, sizeof(line), f)) {
				size_t k; unsigned long long a, b; char nm[512];
				if (sscanf(line, "P %zu %llu %llu", &k, &a, &b) == 3) { perProp[k] += a; perNon[k] += b; }
				else if (sscanf(line, "S %zu %llu", &k, &a) == 2) { samples.push_back(std::make_pair(k, std::make_pair(w, (uint64_t)a))); }
				else if (sscanf(line, "L %511[^\n]", nm) == 1) { char *q = strrchr(nm, ' '); if (q) { *q = 0; labels[nm] += strtoull(q + 1, 0, 10); } }
			}
			fclose(f);
		}
		f = fopen((g_tmp + "/w" + std::to_string(w) + ".hash").c_str(), "r");
		if (f) {
			uint64_t h[1024];
			size_t n;
			while ((n = fread(h, 8, 1024, f)) > 0) all.insert(h, h + n);
			fclose(f);
		}
	}
	std::vector<int> cnt(props().size(), 0);
	fprintf(fp, "{\"evaluations\": %llu, \"discards\": %llu, \"distinct\": %zu, \"wall\": %.1f, \"perProp\": {", (unsigned long long)evals, (unsigned long long)discards, all.size(), now() - start);
	for (size_t k = 0; k < props().size(); k++) fprintf(fp, "%s%s: {\"cases\": %llu, \"nontrivial\": %llu}", k ? ", " : "", js(props()[k].name).c_str(), (unsigned long long)perProp[k], (unsigned long long)perNon[k]);
	fprintf(fp, "}, \"labels\": {");
	bool first = true;
	for (auto& l : labels) { fprintf(fp, "%s%s: %llu", first ? "" : ", ", js(l.first).c_str(), (unsigned long long)l.second); first = false; }
	fprintf(fp, "}, \"samples\": [");
	first = true;
	for (auto& s : samples) {
		if (cnt[s.first]++ >= 2) continue;
		Outcome o = runForked(s.first, 0, caseSeed(props()[s.first], s.second.first, s.second.second), 20);
		fprintf(fp, "%s%s", first ? "" : ", ", js(std::string(props()[s.first].name) + ": " + o.note.substr(0, 600)).c_str());
		first = false;
	}
	fprintf(fp, "]}\n");
	if (fp != stdout) fclose(fp);
	return 0;
}

} // pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	if (size < 1) return 0;
	const std::vector<pbt::Prop>& ps = pbt::props();
	size_t k = data[0] % ps.size();
	static const char *only = getenv("PBT_ONLY");
	if (only) { for (size_t i = 0; i < ps.size(); i++) if (!strcmp(ps[i].name, only)) k = i; }
	pbt::G g(data + 1, size - 1);
	std::string msg;
	int r = pbt::runCase(ps[k], g, msg);
	if (r == 2) {
		fprintf(stderr, "PBT-FAIL %s %s\n", ps[k].name, msg.c_str());
		abort();
	}
	return 0;
}
#else
int main(int argc, char **argv) { return pbt::mainImpl(argc, argv); }
#endif
