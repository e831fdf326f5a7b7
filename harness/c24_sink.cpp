// C24: a failing writer makes serialization report failure.
#include "scale.h"
using namespace spvgentwo;
using namespace ir;

namespace
{
	template<class F> void sinks(const Words& ref, const char* what, F write)
	{
		// every word can be the one the sink rejects: for good (a full disk) or once (an interrupted write)
		for (size_t k = 0; k <= ref.size() + 1; ++k) for (int once = 0; once < 2; ++once)
		{
			Writer w; w.failAt = k; w.failOnce = once; const bool ok = write(w); const bool rejected = k < w.calls;
			MC_CHECK(ok == !rejected, rejected ? "failure-hidden" : "false-failure", "%s reports %s although the sink %s (word %zu of %zu, %s)", what, ok ? "success" : "failure", rejected ? "rejected a word" : "accepted every word", k, ref.size(), once ? "once" : "from there on");
			if (k >= ref.size()) { MC_CHECK(ok && w.words == ref, "content", "%s writes %zu words that differ from the %zu of the complete binary", what, w.words.size(), ref.size()); continue; }
			MC_CHECK(rejected, "stopped-early", "%s stops before word %zu of %zu", what, k, ref.size());
			for (size_t j = 0; j < k && j < w.words.size(); ++j) MC_CHECK(w.words[j] == ref[j], "prefix", "word %zu written before the failure is %x, not %x (%s)", j, w.words[j], ref[j], what);
			MC_CHECK(w.words.size() >= k, "prefix", "%s wrote only %zu words before the sink rejected word %zu", what, w.words.size(), k);
		}
		Writer w; MC_CHECK(write(w) && w.words == ref, "after-failures", "after failed attempts %s writes another binary", what);
	}
	void check(Module& m, bool fin)
	{
		Writer ref; MC_CHECK(m.finalizeAndWrite(ref, &grammar()), "write", "writing to a working sink fails");
		if (!fin) sinks(ref.words, "Module::write", [&](Writer& w) { return m.write(w); });
		else sinks(ref.words, "Module::finalizeAndWrite", [&](Writer& w) { return m.finalizeAndWrite(w, &grammar()); });
		std::vector<Words> raw; split(ref.words, raw); size_t n = 0;
		m.iterateInstructions([&](Instruction& i) { MC_CHECK(n < raw.size(), "iterate", "more instructions than were written"); const Words& want = raw[n++]; sinks(want, "Instruction::write", [&](Writer& w) { return i.write(w); }); });
		MC_CHECK(n == raw.size(), "iterate", "iteration visits %zu of %zu instructions", n, raw.size());
		mc::outcome("every word rejected");
	}
}
MC_SCENARIO(programs, 2)
{
	track::Allocator al; Log log; auto& st = prog::steps(); const unsigned N = unsigned(st.size());
	{
		Module m(&al, &log); prog::Ctx c(m); prog::start(c); uint64_t key = 0; const unsigned fin = mc::choose(2, "finalizeAndWrite");
		for (unsigned d = 0; d < mc::bound(2u, 2u); ++d) { const bool few = d == 1 && !mc::thorough(); unsigned k = mc::choose((few ? unsigned(prog::core().size()) : N) + 1, "step"); if (k == 0) break; if (few) k = prog::core()[k - 1] + 1; mc::op("%s", st[k - 1].name); ++c.n; st[k - 1].run(c); key = mc::mix(key, k); }
		prog::finish(c); mc::state(mc::mix(key, fin)); check(m, fin);
	}
	al.expectEmpty("after destruction");
}
// every step in one module, so that every section is long
MC_SCENARIO(everything, 1)
{
	track::Allocator al; Log log; const unsigned r = mc::choose(2, "order"); mc::op("all steps%s", r ? " backwards" : "");
	{ Module m(&al, &log); std::vector<unsigned> s; for (unsigned i = 0; i < prog::steps().size(); ++i) s.push_back(r ? unsigned(prog::steps().size()) - 1 - i : i); prog::build(m, s); mc::state(r); check(m, r); }
	al.expectEmpty("after destruction");
}
// a module that cannot be written completely reports failure as well, and can be completed afterwards
MC_SCENARIO(incomplete, 2)
{
	track::Allocator al; Log log; auto& st = prog::steps();
	{
		Module m(&al, &log); prog::Ctx c(m); prog::start(c); unsigned k = mc::choose(unsigned(st.size()) + 1, "step"); if (k) { ++c.n; mc::op("%s", st[k - 1].name); st[k - 1].run(c); } mc::state(k);
		m.finalize(&grammar()); Writer w; MC_CHECK(!m.write(w), "missing-terminator", "writing a module whose last block has no terminator reports success");
		prog::finish(c); m.finalize(&grammar()); Writer x; MC_CHECK(m.write(x), "completed", "writing fails after the block was completed: %s", log.last.c_str());
		MC_CHECK(validate(x.words).empty(), "completed", "the completed module is not valid: %s", validate(x.words).c_str()); mc::outcome("completed");
	}
	al.expectEmpty("after destruction");
}
// large modules: words spread over the binary, and the ones around powers of two, are rejected
MC_SCENARIO(large, 1)
{
	track::Allocator al; Log log; const scale::Pick p = scale::choose(unsigned(mc::bound(4, 2)), 3000); const bool fin = mc::flip("finalizeAndWrite");
	{
		Module m(&al, &log); prog::Ctx c(m); prog::start(c); ++c.n; p.shape->run(c, p.n); prog::finish(c); Writer ref; MC_CHECK(m.finalizeAndWrite(ref, &grammar()), "write", "writing to a working sink fails"); const size_t n = ref.words.size(); std::set<size_t> at{ 0, 1, 4, 5, n - 2, n - 1, n, n + 1 };
		for (unsigned q = 1; q < 24; ++q) at.insert(n * q / 24); for (size_t b = 8; b < n; b *= 2) for (size_t d : { b - 1, b, b + 1 }) if (d < n) at.insert(d);
		for (size_t k : at) for (int once = 0; once < 2; ++once)
		{
			Writer w; w.failAt = k; w.failOnce = once; const bool ok = fin ? m.finalizeAndWrite(w, &grammar()) : m.write(w), rejected = k < w.calls; MC_CHECK(ok == !rejected, rejected ? "failure-hidden" : "false-failure", "writing %u %s reports %s although the sink %s (word %zu of %zu, %s)", p.n, p.shape->name, ok ? "success" : "failure", rejected ? "rejected a word" : "accepted every word", k, n, once ? "once" : "from there on");
			if (k >= n) MC_CHECK(ok && w.words == ref.words, "content", "writing %u %s writes other words", p.n, p.shape->name); else { MC_CHECK(rejected, "stopped-early", "writing stops before word %zu of %zu", k, n); MC_CHECK(w.words.size() >= k && std::equal(w.words.begin(), w.words.begin() + long(k), ref.words.begin()), "prefix", "the words before the rejected one (%zu) differ", k); }
		}
		Writer w; MC_CHECK(m.finalizeAndWrite(w, &grammar()) && w.words == ref.words, "after-failures", "after failed attempts another binary is written"); mc::state(mc::mix(mc::mix(p.index, p.n), fin)); mc::outcome("large module");
	}
	al.expectEmpty("after destruction");
}
