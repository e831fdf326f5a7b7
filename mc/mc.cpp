#include "mc.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

namespace
{
	constexpr unsigned MaxDepth = 8192;
	constexpr unsigned MaxWorkers = 16;
	constexpr unsigned MaxOutcomes = 96;
	constexpr int ExitFail = 77, ExitBroken = 78;

	struct Outcome { char name[64]; std::atomic<uint64_t> count; };

	struct Slot
	{
		std::atomic<uint64_t> execs, transitions, checks, pruned, heartbeat;
		std::atomic<uint32_t> maxDepthSeen;
		uint32_t depth;      // recorded path length
		uint32_t pos;        // how much of it this execution used
		uint32_t startDepth;
		uint32_t resume;     // start behind the recorded path
		uint32_t finished;   // whole tree done
		uint32_t timedOut;
		char lastOp[160];
		char sig[256];
		char msg[4096];
		uint16_t choice[MaxDepth], arity[MaxDepth];
		uint32_t sampleCount;
		uint32_t sampleLen[4];
		uint16_t sample[4][256];
	};
	struct Table { std::atomic<uint64_t>* v; uint64_t mask; std::atomic<uint64_t>* count; };
	struct Shared
	{
		Slot slots[MaxWorkers];
		Outcome outcomes[MaxOutcomes];
		std::atomic<uint64_t> counts[4];
		std::atomic<uint32_t> tableFull;
	};

	struct Scn { const char* name; void(*fn)(); unsigned claimDepth; unsigned weight; };
	std::vector<Scn>& scns() { static std::vector<Scn> s; return s; }

	Shared* g = nullptr;
	Table tStates, tFresh, tClaim;
	Slot* S = nullptr;
	int g_worker = 0;
	unsigned g_claimDepth = 3;
	bool g_thorough = false, g_trace = false, g_replay = false;
	bool g_abort = false, g_owned = false, g_usedPruned = false;
	double g_deadline = 0;
	std::string g_scratch;
	size_t g_nscn = 0;

	double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

	void* shm(size_t n)
	{
		void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); _exit(ExitBroken); }
		return p;
	}
	Table makeTable(unsigned bits, unsigned idx)
	{
		Table t; t.v = static_cast<std::atomic<uint64_t>*>(shm((1ull << bits) * 8)); t.mask = (1ull << bits) - 1; t.count = &g->counts[idx]; return t;
	}
	// returns 1 inserted, 0 present, -1 full
	int insert(Table& t, uint64_t key)
	{
		if (key == 0) key = 1;
		if (t.count->load(std::memory_order_relaxed) > (t.mask >> 2) * 3) { g->tableFull = 1; return -1; }
		uint64_t i = (key * 0x9e3779b97f4a7c15ull) & t.mask;
		for (;;)
		{
			uint64_t cur = t.v[i].load(std::memory_order_relaxed);
			if (cur == key) return 0;
			if (cur == 0)
			{
				if (t.v[i].compare_exchange_strong(cur, key)) { t.count->fetch_add(1, std::memory_order_relaxed); return 1; }
				if (cur == key) return 0;
			}
			i = (i + 1) & t.mask;
		}
	}
	uint64_t prefixHash(unsigned n)
	{
		uint64_t h = 88172645463325252ull;
		for (unsigned i = 0; i < n; ++i) h = mc::mix(h, S->choice[i] + 1);
		return h ? h : 1;
	}
	// claim table: stores hash (upper 60 bits) | owner
	bool claim(unsigned n)
	{
		const uint64_t h = prefixHash(n) & ~0x1full;
		const uint64_t mine = h | uint64_t(g_worker + 1);
		uint64_t i = ((h >> 5) * 0x9e3779b97f4a7c15ull) & tClaim.mask;
		for (;;)
		{
			uint64_t cur = tClaim.v[i].load();
			if (cur == mine) return true;
			if (cur != 0 && (cur & ~0x1full) == h) return false;
			if (cur == 0)
			{
				if (tClaim.v[i].compare_exchange_strong(cur, mine)) { tClaim.count->fetch_add(1); return true; }
				continue;
			}
			i = (i + 1) & tClaim.mask;
		}
	}

	void beginExec() { S->pos = 0; S->startDepth = S->depth; g_abort = false; S->lastOp[0] = 0; }
	// moves to the next path; false when the tree is exhausted
	bool backtrack()
	{
		while (S->depth > 0 && S->choice[S->depth - 1] + 1u >= S->arity[S->depth - 1]) --S->depth;
		if (S->depth <= g_claimDepth) g_owned = false;
		if (S->depth == 0) return false;
		++S->choice[S->depth - 1];
		return true;
	}

	[[noreturn]] void worker(const Scn& scn)
	{
		g_claimDepth = scn.claimDepth;
		g_owned = false;
		if (S->resume)
		{
			S->resume = 0;
			if (S->depth > S->pos) S->depth = S->pos;
			if (!backtrack()) { S->finished = 1; _exit(0); }
		}
		for (;;)
		{
			beginExec();
			scn.fn();
			if (S->pos < S->depth && !g_abort && S->pos < S->startDepth)
			{
				snprintf(S->msg, sizeof(S->msg), "nondeterministic scenario %s: replayed prefix was not consumed", scn.name);
				_exit(ExitBroken);
			}
			const bool count = !g_abort && (S->pos >= g_claimDepth || claim(S->pos));
			if (count)
			{
				S->execs.fetch_add(1, std::memory_order_relaxed);
				const uint64_t e = S->execs.load();
				if (e == 2 || e == 37 || e == 1009 || e == 20011)
				{
					unsigned k = S->sampleCount;
					if (k < 4)
					{
						unsigned n = S->depth < 256 ? S->depth : 256;
						memcpy(S->sample[k], S->choice, n * sizeof(uint16_t)); S->sampleLen[k] = n; S->sampleCount = k + 1;
					}
				}
			}
			if (S->depth > S->maxDepthSeen) S->maxDepthSeen = S->depth;
			S->heartbeat.fetch_add(1, std::memory_order_relaxed);
			if (g_abort) S->depth = g_claimDepth;
			if (!backtrack()) { S->finished = 1; _exit(0); }
			if ((S->heartbeat.load() & 15) == 0 && now() > g_deadline) { S->timedOut = 1; _exit(0); }
		}
	}

	std::string jesc(const char* s)
	{
		std::string o;
		for (; *s; ++s)
		{
			unsigned char c = *s;
			if (c == '"' || c == '\\') { o += '\\'; o += c; }
			else if (c == '\n') o += "\\n";
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
			else o += c;
		}
		return o;
	}
	struct Violation { std::string scn, kind, sig, msg; std::vector<unsigned> path; };
}

namespace mc
{
	Register::Register(const char* name, void(*fn)(), unsigned claimDepth, unsigned weight) { scns().push_back({ name, fn, claimDepth, weight }); }

	unsigned choose(unsigned n, const char* label)
	{
		if (n == 0) broken("choose(0) %s", label ? label : "");
		if (n == 1) return 0;
		if (n > 65535) broken("choose(%u) too wide", n);
		if (S->pos >= MaxDepth) broken("decision path too long");
		unsigned c;
		if (S->pos < S->startDepth)
		{
			if (g_replay && S->arity[S->pos] == 0) S->arity[S->pos] = n;
			if (S->arity[S->pos] != n || S->choice[S->pos] >= n) broken("nondeterministic scenario: arity %u became %u at decision %u (%s)", S->arity[S->pos], n, S->pos, label ? label : "");
			c = S->choice[S->pos++];
		}
		else
		{
			S->choice[S->pos] = 0; S->arity[S->pos] = n; ++S->pos; S->depth = S->pos; c = 0;
		}
		if (!g_replay && S->pos == g_claimDepth && !g_abort && !g_owned)
		{
			if (claim(g_claimDepth)) g_owned = true; else g_abort = true;
		}
		return c;
	}

	void op(const char* fmt, ...)
	{
		S->transitions.fetch_add(g_abort ? 0 : 1, std::memory_order_relaxed);
		unsigned i = 0;
		for (; fmt[i] && i + 1 < sizeof(S->lastOp) && fmt[i] != '(' && fmt[i] != ' '; ++i) S->lastOp[i] = fmt[i];
		S->lastOp[i] = 0;
		if (g_trace)
		{
			va_list l; va_start(l, fmt); printf("  op "); vprintf(fmt, l); printf("\n"); fflush(stdout); va_end(l);
		}
	}
	void at(const char* what) { snprintf(S->lastOp, sizeof(S->lastOp), "%s", what); }
	void state(uint64_t h) { if (!g_abort) insert(tStates, h); }
	bool fresh(uint64_t key, unsigned left)
	{
		if (g_replay) return true;
		if (g_abort) return false;
		if (S->pos < S->startDepth || S->pos < g_claimDepth) return true;
		const int r = insert(tFresh, mix(key, left + 1));
		if (r == 0) { S->pruned.fetch_add(1, std::memory_order_relaxed); return false; }
		return true;
	}
	void outcome(const char* what)
	{
		if (g_trace) { printf("  outcome %s\n", what); fflush(stdout); }
		if (g_abort) return;
		for (unsigned i = 0; i < MaxOutcomes; ++i)
		{
			Outcome& o = g->outcomes[i];
			if (o.name[0] == 0)
			{
				// benign race: two workers may claim the same slot with the same name; names are re-checked below
				char b[64]; snprintf(b, 64, "%s", what);
				memcpy(o.name, b, 64);
			}
			if (strncmp(o.name, what, 63) == 0) { o.count.fetch_add(1, std::memory_order_relaxed); return; }
		}
	}
	bool aborting() { return g_abort; }
	bool tracing() { return g_trace; }
	void checked(unsigned n) { S->checks.fetch_add(g_abort ? 0 : n, std::memory_order_relaxed); }
	void note(const char* fmt, ...)
	{
		if (!g_trace) return;
		va_list l; va_start(l, fmt); printf("  "); vprintf(fmt, l); printf("\n"); fflush(stdout); va_end(l);
	}
	void fail(const char* sig, const char* fmt, ...)
	{
		snprintf(S->sig, sizeof(S->sig), "%s", sig);
		va_list l; va_start(l, fmt); vsnprintf(S->msg, sizeof(S->msg), fmt, l); va_end(l);
		if (g_replay) { printf("FAIL sig=%s\nMSG %s\n", S->sig, S->msg); fflush(stdout); }
		_exit(ExitFail);
	}
	void broken(const char* fmt, ...)
	{
		va_list l; va_start(l, fmt); vsnprintf(S->msg, sizeof(S->msg), fmt, l); va_end(l);
		if (g_replay) { printf("BROKEN %s\n", S->msg); fflush(stdout); }
		_exit(ExitBroken);
	}
	bool thorough() { return g_thorough; }
	int workerId() { return g_worker; }
	const char* scratch()
	{
		static std::string s;
		if (s.empty())
		{
			s = g_scratch + "/w" + std::to_string(g_worker);
			mkdir(s.c_str(), 0700);
		}
		return s.c_str();
	}
}

int main(int argc, char** argv)
{
	std::string out, scnName, replay; bool haveReplay = false;
	unsigned workers = 8; double budget = 600, hang = 30; unsigned maxViol = 24; bool list = false;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto val = [&] { if (++i >= argc) { fprintf(stderr, "missing value\n"); _exit(ExitBroken); } return std::string(argv[i]); };
		if (a == "--out") out = val();
		else if (a == "--scenario") scnName = val();
		else if (a == "--replay") { replay = val(); haveReplay = true; }
		else if (a == "--workers") workers = std::stoi(val());
		else if (a == "--budget") budget = std::stod(val());
		else if (a == "--hang") hang = std::stod(val());
		else if (a == "--max-violations") maxViol = std::stoi(val());
		else if (a == "--tier") g_thorough = val() == "thorough";
		else if (a == "--scratch") g_scratch = val();
		else if (a == "--list") list = true;
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return ExitBroken; }
	}
	if (workers > MaxWorkers) workers = MaxWorkers;
	if (list) { for (auto& s : scns()) puts(s.name); return 0; }
	if (g_scratch.empty()) g_scratch = "/tmp";
	g = static_cast<Shared*>(shm(sizeof(Shared)));

	if (haveReplay)
	{
		g_replay = true; g_trace = true; S = &g->slots[0];
		tStates = makeTable(16, 0); tFresh = makeTable(16, 1); tClaim = makeTable(16, 2);
		unsigned n = 0; const char* p = replay.c_str();
		while (*p) { char* e; long v = strtol(p, &e, 10); if (e == p) break; S->choice[n] = v; S->arity[n++] = 0; p = *e ? e + 1 : e; }
		S->depth = n; S->startDepth = n; S->pos = 0;
		for (auto& s : scns()) if (scnName == s.name)
		{
			g_claimDepth = s.claimDepth;
			printf("scenario %s\n", s.name); fflush(stdout);
			s.fn();
			printf("DONE pos=%u of %u\n", S->pos, n); fflush(stdout);
			_exit(0);
		}
		fprintf(stderr, "no scenario %s\n", scnName.c_str());
		return ExitBroken;
	}

	FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
	if (!f) { perror("out"); return ExitBroken; }
	fprintf(f, "{\"scenarios\":[");
	const double t0 = now();
	std::vector<Violation> viols; bool brokenRun = false; std::string brokenMsg; bool firstScn = true;
	std::vector<Scn> todo;
	for (auto& s : scns()) if (scnName.empty() || scnName == s.name) todo.push_back(s);
	tClaim = makeTable(22, 2);
	for (size_t si = 0; si < todo.size() && !brokenRun; ++si)
	{
		const Scn& scn = todo[si];
		memset(static_cast<void*>(g), 0, sizeof(Shared));
		if (si) { munmap(tStates.v, (tStates.mask + 1) * 8); munmap(tFresh.v, (tFresh.mask + 1) * 8); munmap(tClaim.v, (tClaim.mask + 1) * 8); tClaim = makeTable(22, 2); }
		tStates = makeTable(26, 0); tFresh = makeTable(26, 1);
		const double left = budget - (now() - t0);
		// what is left of the budget is shared by the scenarios still to run, with a generous first share
		const double share = todo.size() - si == 1 ? left : left * 2.0 / double(todo.size() - si + 1);
		const double ts = now();
		g_deadline = ts + (share < 1 ? 1 : share);
		std::vector<pid_t> pid(workers, 0); std::vector<uint64_t> hb(workers, 0); std::vector<double> hbT(workers, ts);
		auto spawn = [&](unsigned w) {
			fflush(nullptr);
			pid_t p = fork();
			if (p == 0)
			{
				g_worker = int(w); S = &g->slots[w];
				if (getenv("MC_KEEP_STDERR") == nullptr) { if (!freopen("/dev/null", "w", stderr)) {} }
				if (!freopen("/dev/null", "w", stdout)) {}
				worker(scn);
			}
			pid[w] = p; hbT[w] = now(); hb[w] = g->slots[w].heartbeat.load();
		};
		for (unsigned w = 0; w < workers; ++w) spawn(w);
		unsigned alive = workers; unsigned scnViol = 0; bool stop = false; unsigned nolimit = 0;
		while (alive)
		{
			int st = 0; pid_t p = waitpid(-1, &st, WNOHANG);
			if (p <= 0)
			{
				usleep(2000);
				const double t = now();
				for (unsigned w = 0; w < workers; ++w) if (pid[w])
				{
					const uint64_t h = g->slots[w].heartbeat.load();
					if (h != hb[w]) { hb[w] = h; hbT[w] = t; }
					else if (t - hbT[w] > hang) { snprintf(g->slots[w].sig, 256, "hang:%s", g->slots[w].lastOp); g->slots[w].msg[0] = 0; kill(pid[w], SIGKILL); hbT[w] = t + 1e6; }
				}
				continue;
			}
			unsigned w = 0; for (; w < workers; ++w) if (pid[w] == p) break;
			if (w == workers) continue;
			pid[w] = 0; Slot& s = g->slots[w];
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --alive; continue; }
			if (WIFEXITED(st) && WEXITSTATUS(st) == ExitBroken)
			{
				brokenRun = true; brokenMsg = std::string(scn.name) + ": " + s.msg; --alive;
				for (unsigned k = 0; k < workers; ++k) if (pid[k]) kill(pid[k], SIGKILL);
				for (unsigned k = 0; k < workers; ++k) if (pid[k]) { waitpid(pid[k], nullptr, 0); pid[k] = 0; }
				alive = 0; break;
			}
			Violation v; v.scn = scn.name;
			if (WIFEXITED(st) && WEXITSTATUS(st) == ExitFail) { v.kind = "fail"; v.sig = s.sig; v.msg = s.msg; }
			else if (strncmp(s.sig, "hang:", 5) == 0) { v.kind = "hang"; v.sig = s.sig; }
			else { v.kind = "crash"; v.sig = std::string("crash:") + s.lastOp; }
			s.sig[0] = 0; s.msg[0] = 0;
			const unsigned n = s.pos < s.depth ? s.pos : s.depth;
			for (unsigned k = 0; k < n; ++k) v.path.push_back(s.choice[k]);
			// keep one path per signature (the shortest), and count
			bool dup = false;
			for (auto& o : viols) if (o.scn == v.scn && o.sig == v.sig) { dup = true; if (v.path.size() < o.path.size()) { o.path = v.path; o.msg = v.msg; } }
			if (!dup) { viols.push_back(v); }
			++scnViol; ++nolimit;
			if (scnViol >= maxViol || stop) { stop = true; --alive; g->slots[w].timedOut = 1; if (alive) { for (unsigned k = 0; k < workers; ++k) if (pid[k]) { kill(pid[k], SIGKILL); waitpid(pid[k], nullptr, 0); pid[k] = 0; } alive = 0; } continue; }
			s.resume = 1;
			spawn(w);
		}
		uint64_t ex = 0, tr = 0, ck = 0, pr = 0; unsigned md = 0; bool complete = !stop && !brokenRun;
		for (unsigned w = 0; w < workers; ++w)
		{
			Slot& s = g->slots[w];
			ex += s.execs; tr += s.transitions; ck += s.checks; pr += s.pruned; if (s.maxDepthSeen > md) md = s.maxDepthSeen;
			if (!s.finished) complete = false;
		}
		fprintf(f, "%s{\"name\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"checks\":%llu,\"pruned\":%llu,\"states\":%llu,\"max_decisions\":%u,\"exhaustive\":%s,\"violating_paths\":%u,\"wall_s\":%.2f,\"outcomes\":{",
			firstScn ? "" : ",", scn.name, (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)ck, (unsigned long long)pr,
			(unsigned long long)g->counts[0].load(), md, complete ? "true" : "false", scnViol, now() - ts);
		firstScn = false;
		// merge outcome slots (a racing insertion may have produced duplicates)
		std::map<std::string, uint64_t> oc;
		for (auto& o : g->outcomes) if (o.name[0]) oc[o.name] += o.count.load();
		bool fo = true; for (auto& o : oc) { fprintf(f, "%s\"%s\":%llu", fo ? "" : ",", jesc(o.first.c_str()).c_str(), (unsigned long long)o.second); fo = false; }
		fprintf(f, "},\"samples\":[");
		bool fs = true; unsigned ns = 0;
		for (unsigned w = 0; w < workers && ns < 3; ++w)
		{
			Slot& s = g->slots[w];
			if (s.sampleCount == 0) continue;
			unsigned k = s.sampleCount - 1;
			fprintf(f, "%s[", fs ? "" : ","); fs = false; ++ns;
			for (unsigned i = 0; i < s.sampleLen[k]; ++i) fprintf(f, "%s%u", i ? "," : "", s.sample[k][i]);
			fprintf(f, "]");
		}
		fprintf(f, "]}");
	}
	fprintf(f, "],\"broken\":\"%s\",\"violations\":[", jesc(brokenMsg.c_str()).c_str());
	for (size_t i = 0; i < viols.size(); ++i)
	{
		auto& v = viols[i];
		fprintf(f, "%s{\"scenario\":\"%s\",\"kind\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\",\"path\":[", i ? "," : "", v.scn.c_str(), v.kind.c_str(), jesc(v.sig.c_str()).c_str(), jesc(v.msg.c_str()).c_str());
		for (size_t k = 0; k < v.path.size(); ++k) fprintf(f, "%s%u", k ? "," : "", v.path[k]);
		fprintf(f, "]}");
	}
	fprintf(f, "],\"wall_s\":%.2f}\n", now() - t0);
	if (f != stdout) fclose(f);
	return brokenRun ? ExitBroken : 0;
}
