// C35: the build options do not change what the library does. Every configuration is linked into this harness under
// namespaces of its own and runs the same programs.
#include "mc.h"
#include "c35.h"
#include <cstring>

#define CONFIGS(X) X(all) X(own_traits_off) X(own_new_off) X(logging_off) X(validation_off) X(none)
#define DECLARE(n) void c35_get_##n(C35Config&);
CONFIGS(DECLARE)
namespace
{
	const std::vector<C35Config>& configs()
	{
		static const std::vector<C35Config> v = [] { std::vector<C35Config> r;
#define ADD(n) { C35Config c; c.name = #n; c35_get_##n(c); r.push_back(c); }
			CONFIGS(ADD) return r; }();
		return v;
	}
	uint64_t h(const std::vector<uint32_t>& w) { return mc::hashBytes(w.data(), w.size() * 4); }
	template <class F> void compare(F run, const std::string& what, bool legal = true)
	{
		const auto& c = configs(); std::vector<C35Result> r(c.size());
		// without operand validation only legal programs behave alike
		auto skipped = [&](size_t k) { return !legal && (!strcmp(c[k].name, "validation_off") || !strcmp(c[k].name, "none")); };
		for (size_t k = 0; k < c.size(); ++k) if (!skipped(k)) run(c[k], r[k]);
		mc::state(mc::mix(mc::mix(h(r[0].words), mc::mix(h(r[0].again), mc::hashStr(r[0].text))), mc::hashBytes(r[0].trace.data(), r[0].trace.size() * 8)));
		for (size_t k = 1; k < c.size(); ++k)
		{
			if (skipped(k)) continue;
			auto sig = [&](const char* s) { return std::string(s) + ":" + c[k].name; };
			MC_CHECK(r[k].finalized == r[0].finalized && r[k].read == r[0].read && r[k].rewritten == r[0].rewritten && r[k].printed == r[0].printed, sig("answers").c_str(), "%s: with the options '%s' writing %s, reading %s, printing %s; with the default options %s, %s, %s", what.c_str(), c[k].name, r[k].finalized ? "succeeds" : "fails", r[k].read ? "succeeds" : "fails", r[k].printed ? "succeeds" : "fails", r[0].finalized ? "succeeds" : "fails", r[0].read ? "succeeds" : "fails", r[0].printed ? "succeeds" : "fails");
			size_t d = 0; while (d < r[0].words.size() && d < r[k].words.size() && r[0].words[d] == r[k].words[d]) ++d;
			MC_CHECK(r[k].words == r[0].words, sig("binary").c_str(), "%s: with the options '%s' the binary has %zu words instead of %zu, the first difference is at %zu", what.c_str(), c[k].name, r[k].words.size(), r[0].words.size(), d);
			MC_CHECK(r[k].again == r[0].again, sig("read-back").c_str(), "%s: with the options '%s' reading and writing the binary gives another one", what.c_str(), c[k].name);
			MC_CHECK(r[k].text == r[0].text, sig("text").c_str(), "%s: with the options '%s' the module prints differently", what.c_str(), c[k].name);
			d = 0; while (d < r[0].trace.size() && d < r[k].trace.size() && r[0].trace[d] == r[k].trace[d]) ++d;
			MC_CHECK(r[k].trace == r[0].trace, sig("containers").c_str(), "%s: with the options '%s' the elements live differently, the first difference is at event %zu (%llx instead of %llx)", what.c_str(), c[k].name, d, d < r[k].trace.size() ? (unsigned long long)r[k].trace[d] : 0ull, d < r[0].trace.size() ? (unsigned long long)r[0].trace[d] : 0ull);
		}
		mc::outcome(!legal ? r[0].trace[0] || r[0].trace[1] ? "refused alike" : r[0].finalized ? "accepted alike" : "not written alike" : r[0].words.empty() && r[0].trace.size() ? "containers" : r[0].words.empty() ? r[0].read ? "read alike" : "refused alike" : r[0].finalized && r[0].read && r[0].rewritten && r[0].printed ? "written, printed, read" : "refused alike");
	}
}
MC_SCENARIO(programs, 2)
{
	const unsigned N = configs()[0].steps; std::vector<unsigned> s; for (int d = 0; d < mc::bound(2, 3); ++d) { const unsigned k = mc::choose(d == 2 ? 8 : N + 1, "step"); if (d < 2 && k == N) break; const unsigned at = d == 2 ? k * (N / 8) : k; s.push_back(at); mc::op("step %u", at); }
	compare([&](const C35Config& c, C35Result& r) { c.program(s, r); }, "a program");
}
MC_SCENARIO(large, 2)
{
	const unsigned shape = mc::choose(configs()[0].shapes, "shape"); const unsigned ns[] = { 9, 33, 129, 7, 17, 65, 257 }; const unsigned n = ns[mc::choose(mc::bound(3, 7), "number")]; mc::op("shape %u, %u", shape, n);
	compare([&](const C35Config& c, C35Result& r) { c.large(shape, n, r); }, "a large program");
}
MC_SCENARIO(containers, 3)
{
	const unsigned kind = mc::choose(11, "kind"); std::vector<unsigned> s; for (int d = 0; d < mc::bound(4, 5); ++d) { s.push_back(mc::choose(11, "operation")); mc::op("operation %u", s.back()); }
	compare([&](const C35Config& c, C35Result& r) { c.containers(kind, s, r); }, "a history");
}
// damaged modules are refused, or read, alike
MC_SCENARIO(damage, 3)
{
	static std::vector<std::vector<uint32_t>> modules; if (modules.empty()) for (unsigned k = 0; k < 4; ++k) { C35Result r; configs()[0].program({ k * configs()[0].steps / 4, k * 5 + 2 }, r); modules.push_back(r.words); }
	std::vector<uint32_t> w = modules[mc::choose(mc::bound(2, 4), "module")]; const unsigned at = mc::choose(w.size(), "word"), how = mc::choose(mc::bound(6, 8), "damage");
	switch (how) { case 0: w[at] = 0; break; case 1: ++w[at]; break; case 2: w[at] ^= 0x10000; break; case 3: w[at] = ~0u; break; case 4: w.resize(at); break; case 5: w.erase(w.begin() + at); break; case 6: --w[at]; break; case 7: w.insert(w.begin() + at, w[at]); break; }
	mc::op("word %u, damage %u", at, how); compare([&](const C35Config& c, C35Result& r) { c.reread(w, r); }, "a damaged module");
}
MC_SCENARIO(refused, 3)
{
	static unsigned N = 0; if (!N) { C35Result r; N = configs()[0].refuse(~0u, 0, 0, r); }
	const unsigned call = mc::choose(N, "call"), x = mc::choose(14, "operand"), y = mc::choose(14, "operand"); mc::op("call %u with operands %u and %u", call, x, y);
	compare([&](const C35Config& c, C35Result& r) { c.refuse(call, x, y, r); }, "a call", false);
}
