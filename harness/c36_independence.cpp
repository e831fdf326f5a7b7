// C36: what a module becomes depends only on the calls made on it, not on other modules and not on memory.
#include "scale.h"
#include "common/ModulePrinter.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <cstdlib>
#include <map>
using namespace spvgentwo; using namespace ir;

namespace
{
	struct Result { Words words, again; std::string text; bool written = false, printed = false, read = false; };
	bool operator==(const Result& a, const Result& b) { return a.words == b.words && a.again == b.again && a.text == b.text && a.written == b.written && a.printed == b.printed && a.read == b.read; }
	std::string differs(const Result& a, const Result& b)
	{
		if (a.written != b.written) return "writing " + std::string(b.written ? "succeeds" : "fails"); size_t d = 0; while (d < a.words.size() && d < b.words.size() && a.words[d] == b.words[d]) ++d;
		if (a.words != b.words) return "the binary differs from word " + std::to_string(d) + " on"; if (a.printed != b.printed || a.text != b.text) return "the printed text"; if (a.read != b.read || a.again != b.again) return "the module read back"; return "";
	}

	// ------------------------------------------------------------------------------------------- memory
	// hands out addresses in an order of its own, filled with a pattern of its own
	struct Layout : IAllocator
	{
		unsigned mode; unsigned char fill; std::vector<char*> arenas; char *lo = nullptr, *hi = nullptr; unsigned n = 0; std::map<size_t, std::vector<void*>> free_; size_t live = 0;
		Layout(unsigned m, unsigned char f) : mode(m), fill(f) {}
		~Layout() { for (char* a : arenas) ::free(a); }
		void* allocate(sgt_size_t bytes, unsigned int) override
		{
			++live; const size_t b = (bytes + 15) / 16 * 16; void* p = nullptr;
			if (mode == 4) { auto& f = free_[b]; if (!f.empty()) { p = f.back(); f.pop_back(); memset(p, fill, bytes); return p; } }
			if (!lo || size_t(hi - lo) < b) { const size_t size = std::max<size_t>(1 << 20, b); arenas.push_back(static_cast<char*>(::aligned_alloc(16, size))); lo = arenas.back(); hi = lo + size; }
			const bool up = mode == 0 || mode == 4 || (mode == 2 && (n & 1)) || (mode == 3 && (n * 2654435761u >> 16 & 1)); ++n;
			if (up) { p = lo; lo += b; } else { hi -= b; p = hi; }
			memset(p, fill, bytes); return p;
		}
		void deallocate(void* p, sgt_size_t bytes) override { if (!p) return; --live; if (bytes) memset(p, ~fill, bytes); if (mode == 4 && bytes) free_[(bytes + 15) / 16 * 16].push_back(p); }
	};
	void finish(IAllocator& a, Module& m, IWriter& w, Result& r)
	{
		r.written = m.finalizeAndWrite(w, &grammar());
		String text(&a); auto printer = ModulePrinter::ModuleStringPrinter(text, false); r.printed = ModulePrinter::printModule(m, grammar(), printer, ModulePrinter::PrintOptionsBits::All); r.text = text.c_str() ? text.c_str() : "";
	}
	Result whole(IAllocator& a, const std::vector<unsigned>& steps)
	{
		Result r; { Module m(&a); prog::build(m, steps); Writer w; finish(a, m, w, r); r.words = w.words; }
		{ Module o(&a); Reader in(r.words); r.read = o.readAndInit(in, grammar()); if (r.read) { Writer w; o.finalizeAndWrite(w, &grammar()); r.again = w.words; } } return r;
	}
	Result grown(IAllocator& a, const scale::Pick& p)
	{
		Result r; { Module m(&a); prog::Ctx c(m); prog::start(c); ++c.n; p.shape->run(c, p.n); prog::finish(c); Writer w; finish(a, m, w, r); r.words = w.words; }
		{ Module o(&a); Reader in(r.words); r.read = o.readAndInit(in, grammar()); if (r.read) { Writer w; o.finalizeAndWrite(w, &grammar()); r.again = w.words; } } return r;
	}
	struct Where { unsigned mode; unsigned char fill; const char* name; };
	const Where places[] = { { 0, 0x00, "ascending addresses, zeros" }, { 1, 0xff, "descending addresses, ones" }, { 2, 0x55, "alternating ends" }, { 3, 0xa7, "irregular order" }, { 4, 0xcd, "freed blocks are handed out again" } };
	template <class F> void everywhere(F run, const std::string& what)
	{
		Result first; for (unsigned k = 0; k < 5; ++k)
		{
			Result r; { Layout a(places[k].mode, places[k].fill); r = run(a); MC_CHECK(a.live == 0, "memory-left", "%s: %zu blocks are left", what.c_str(), a.live); }
			if (!k) { first = r; mc::state(hashWords(r.words)); continue; } const std::string d = differs(first, r);
			MC_CHECK(d.empty(), "memory", "%s: %s (with %s instead of %s)", what.c_str(), d.c_str(), places[k].name, places[0].name);
		}
		mc::outcome(first.written && first.read && first.printed ? "the same everywhere" : "refused everywhere");
	}
}
MC_SCENARIO(memory, 2)
{
	const unsigned N = unsigned(prog::steps().size()); std::vector<unsigned> s; std::string what = "program"; for (int d = 0; d < mc::bound(2, 3); ++d) { const unsigned k = mc::choose(d == 2 ? 6 : N + 1, "step"); if (d < 2 && k == N) break; s.push_back(d == 2 ? k * (N / 6) : k); what += std::string(" ") + prog::steps()[s.back()].name; } mc::op("%s", what.c_str());
	everywhere([&](IAllocator& a) { return whole(a, s); }, what);
}
MC_SCENARIO(large_memory, 2)
{
	const auto& shapes = scale::shapes(); const unsigned k = mc::choose(shapes.size(), "shape"), ns[] = { 9, 33, 70, 130, 257 }; scale::Pick p; p.shape = &shapes[k]; p.index = k; p.n = ns[mc::choose(mc::bound(2, 4), "number")]; mc::op("shape %u, %u", k, p.n);
	everywhere([&](IAllocator& a) { return grown(a, p); }, "a large program");
}
// ----------------------------------------------------------------------------------------------- interleaved calls
namespace
{
	struct Run
	{
		HeapAllocator a; std::unique_ptr<Module> m, o; std::unique_ptr<prog::Ctx> c; std::vector<unsigned> steps; unsigned at = 0; Result r;
		explicit Run(std::vector<unsigned> s) : steps(std::move(s)) {}
		unsigned count() const { return unsigned(steps.size()) + 4; }
		void next()
		{
			const unsigned k = at++;
			if (k == 0) { m.reset(new Module(&a)); c.reset(new prog::Ctx(*m)); prog::start(*c); return; }
			if (k <= steps.size()) { ++c->n; prog::steps()[steps[k - 1]].run(*c); return; }
			switch (k - steps.size())
			{
			case 1: { prog::finish(*c); Writer w; finish(a, *m, w, r); r.words = w.words; break; }
			case 2: { o.reset(new Module(&a)); Reader in(r.words); r.read = o->read(in, grammar()) ; break; }
			case 3: { r.read = r.read && o->resolveIDs() && o->reconstructNames() && o->reconstructTypeAndConstantInfo(); if (r.read) { Writer w; o->finalizeAndWrite(w, &grammar()); r.again = w.words; } o.reset(); c.reset(); m.reset(); break; }
			}
		}
	};
	const Result& alone(const std::vector<unsigned>& s) { static std::map<std::vector<unsigned>, Result> known; auto it = known.find(s); if (it == known.end()) { HeapAllocator a; it = known.emplace(s, whole(a, s)).first; } return it->second; }
}
MC_SCENARIO(interleaved, 2)
{
	const unsigned N = unsigned(prog::steps().size()); const unsigned ka = mc::choose(N, "step of the first"), kb = mc::choose(mc::bound(9, N), "step of the second") * (mc::thorough() ? 1 : N / 9); Run x({ ka }), y({ kb });
	std::string order; while (x.at < x.count() || y.at < y.count()) { bool first = y.at >= y.count(); if (x.at < x.count() && y.at < y.count()) { const bool other = mc::flip("other"); first = !other; } order += first ? 'A' : 'B'; (first ? x : y).next(); }
	mc::op("A is %s, B is %s, calls %s", prog::steps()[ka].name, prog::steps()[kb].name, order.c_str());
	for (Run* r : { &x, &y }) { const std::string d = differs(alone(r->steps), r->r); MC_CHECK(d.empty(), "interleaved", "module %s changes when another one is built beside it (%s): %s", r == &x ? "A" : "B", order.c_str(), d.c_str()); }
	mc::state(mc::mix(hashWords(x.r.words), hashWords(y.r.words))); mc::outcome("as if alone");
}
// ----------------------------------------------------------------------------------------------- schedules
namespace
{
	// two threads, of which one runs at a time; control passes at the points chosen only
	struct Sched
	{
		std::mutex mu; std::condition_variable cv; unsigned turn = 0; bool done[2] = { false, false }; unsigned count[2] = { 0, 0 }, stop[2] = { ~0u, ~0u };
		void await(unsigned t) { std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return turn == t; }); }
		void point(unsigned t) { if (count[t]++ != stop[t]) return; std::unique_lock<std::mutex> l(mu); if (done[1 - t]) return; turn = 1 - t; cv.notify_all(); cv.wait(l, [&] { return turn == t; }); }
		void end(unsigned t) { std::unique_lock<std::mutex> l(mu); done[t] = true; if (!done[1 - t]) turn = 1 - t; cv.notify_all(); }
	};
	struct SA : IAllocator { Sched& s; unsigned t; HeapAllocator a; SA(Sched& x, unsigned y) : s(x), t(y) {} void* allocate(sgt_size_t b, unsigned int h) override { s.point(t); return a.allocate(b, h); } void deallocate(void* p, sgt_size_t b) override { s.point(t); a.deallocate(p, b); } };
	struct SW : Writer { Sched& s; unsigned t; SW(Sched& x, unsigned y) : s(x), t(y) {} bool put(unsigned int w) override { s.point(t); return Writer::put(w); } };
	struct SR : Reader { Sched& s; unsigned t; SR(const Words& w, Sched& x, unsigned y) : Reader(w), s(x), t(y) {} bool get(unsigned int& w) override { s.point(t); return Reader::get(w); } };
	void body(Sched& s, unsigned t, const std::vector<unsigned>& steps, Result& r)
	{
		s.await(t);
		{
			SA a(s, t); { Module m(&a); prog::Ctx c(m); prog::start(c); for (unsigned k : steps) { s.point(t); ++c.n; prog::steps()[k].run(c); } prog::finish(c); SW w(s, t); finish(a, m, w, r); r.words = w.words; }
			{ Module o(&a); SR in(r.words, s, t); r.read = o.readAndInit(in, grammar()); if (r.read) { SW w(s, t); o.finalizeAndWrite(w, &grammar()); r.again = w.words; } }
		}
		s.end(t);
	}
	unsigned points(unsigned k) { static std::map<unsigned, unsigned> known; auto it = known.find(k); if (it == known.end()) { Sched s; s.done[1] = true; Result r; body(s, 0, { k }, r); it = known.emplace(k, s.count[0]).first; } return it->second; }
}
MC_SCENARIO(schedules, 3)
{
	const unsigned N = unsigned(prog::steps().size()); grammar(); infer(); const unsigned ka = mc::choose(N, "program of A"); const unsigned kind = mc::choose(2, "program of B"); const unsigned kb = kind == 0 ? ka : (ka * 5 + 7) % N;
	const unsigned na = points(ka), nb = points(kb), stride = mc::bound(12, 4); const unsigned p = mc::choose((na + stride - 1) / stride, "A stops at") * stride; const unsigned qs = mc::bound(2, 3), q = mc::choose(qs, "B stops at");
	Sched s; s.stop[0] = p; if (q) s.stop[1] = mc::thorough() ? nb * q / 3 : (p + nb / 2) % nb; mc::op("A: %s, runs to point %u of %u; B: %s, to %d of %u", prog::steps()[ka].name, p, na, prog::steps()[kb].name, q ? int(s.stop[1]) : -1, nb);
	Result r[2]; { std::thread a([&] { body(s, 0, { ka }, r[0]); }), b([&] { body(s, 1, { kb }, r[1]); }); a.join(); b.join(); }
	for (unsigned t = 0; t < 2; ++t) { const std::string d = differs(alone({ t ? kb : ka }), r[t]); MC_CHECK(d.empty(), "schedule", "the module of thread %c changes when another thread builds one (A: %s until point %u): %s", 'A' + t, prog::steps()[ka].name, p, d.c_str()); }
	mc::state(mc::mix(mc::mix(ka, kb), mc::mix(p, q))); mc::outcome("as if alone");
}
