// C37: messages reach the logger exactly when their level is enabled; flags are sets; versions and generators keep their parts.
#include "ir.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "common/ConsoleLogger.h"
#include <unistd.h>
#include <fcntl.h>
using namespace spvgentwo;

namespace
{
	const LogLevel levels[] = { LogLevel::Debug, LogLevel::Info, LogLevel::Warning, LogLevel::Error, LogLevel::Fatal };
	const char* const names[] = { "Debug", "Info", "Warning", "Error", "Fatal" };
	struct Got { unsigned level; std::string text; int by; bool operator==(const Got& o) const { return level == o.level && text == o.text && by == o.by; } };
	std::vector<Got> got; ILogger* expected = nullptr;
	template <int BY> void sink(ILogger* self, LogLevel level, const char* format, ...)
	{
		char buf[512]; va_list ap; va_start(ap, format); vsnprintf(buf, sizeof buf, format, ap); va_end(ap);
		MC_CHECK(self == expected, "instance", "the callback is not told which logger it is called for"); got.push_back({ unsigned(level), buf, BY });
	}
	const char* const tricky[] = { "", "plain", "100%% of %s", "\xc3\xa9\n\t" };
	void same(const std::vector<Got>& want, const char* what)
	{
		MC_CHECK(got.size() == want.size(), "deliveries", "%s: %zu messages arrive instead of %zu", what, got.size(), want.size()); for (size_t i = 0; i < want.size(); ++i) MC_CHECK(got[i] == want[i], "message", "%s: message %zu is '%s' of level %u to callback %d instead of '%s' of level %u to %d", what, i, got[i].text.c_str(), got[i].level, got[i].by, want[i].text.c_str(), want[i].level, want[i].by);
		got.clear();
	}
	enum class Bits : unsigned { None = 0, A = 1, B = 2, C = 4, D = 0x40000000, E = 0x80000000 };
	const unsigned bit[] = { 1, 2, 4, 0x40000000u, 0x80000000u };
	unsigned spread(unsigned m) { unsigned r = 0; for (unsigned i = 0; i < 5; ++i) if (m >> i & 1) r |= bit[i]; return r; }
}
MC_SCENARIO(histories, 2)
{
	// of filters, callbacks and messages, through the logger and through a module
	HeapAllocator a; const unsigned start = mc::choose(3, "constructed"); ILogger none, on(&sink<1>), only(&sink<1>, Flag<LogLevel>(LogLevel::Error, LogLevel::Debug)); ILogger& l = start == 0 ? none : start == 1 ? on : only; expected = &l; got.clear();
	Module m(&a, &l); int cb = start ? 1 : 0; unsigned filter = start == 2 ? 9 : 31; std::vector<Got> want; std::vector<unsigned> state{ start };
	for (int d = 0; d < mc::bound(4, 5); ++d)
	{
		const unsigned op = mc::choose(4, "operation"); state.push_back(op);
		if (op == 0) { const unsigned f[] = { 0, 31, 4, 24, 1 }; filter = f[mc::choose(5, "filter")]; l.setFilter(Flag<LogLevel>(filter)); mc::op("setFilter(%u)", filter); }
		else if (op == 1) { cb = int(mc::choose(3, "callback")); l.setCallback(cb == 0 ? nullptr : cb == 1 ? &sink<1> : &sink<2>); mc::op("setCallback(%d)", cb); }
		else
		{
			const unsigned k = mc::choose(5, "level"), way = op == 2 ? 0 : 1 + mc::choose(4, "way"); mc::op("log %s, way %u", names[k], way); const int n = 42 + d; bool sent = true; const char* const f = "%s %d %s"; const std::string text = std::string("x% ") + std::to_string(n) + " \xc3\xa9";
			auto by = [&](auto& t, auto... first) { switch (k) { case 0: return t.logDebug(first..., f, "x%", n, "\xc3\xa9"); case 1: return t.logInfo(first..., f, "x%", n, "\xc3\xa9"); case 2: return t.logWarning(first..., f, "x%", n, "\xc3\xa9"); case 3: return t.logError(first..., f, "x%", n, "\xc3\xa9"); default: return t.logFatal(first..., f, "x%", n, "\xc3\xa9"); } };
			switch (way)
			{
			case 0: l.log(levels[k], f, "x%", n, "\xc3\xa9"); break; case 1: by(l); break; case 2: by(m); break;
			case 3: MC_CHECK(by(m, true) == true, "answer", "%s answers false for what holds", names[k]); sent = false; break; case 4: MC_CHECK(by(m, false) == false, "answer", "%s answers true for what does not hold", names[k]); break;
			}
			if (sent && cb && (filter >> k & 1)) want.push_back({ 1u << k, text, cb });
			state.push_back(k * 8 + way);
		}
	}
	same(want, "a history"); uint64_t h = 1; for (unsigned x : state) h = mc::mix(h, x); mc::state(h); mc::outcome(want.empty() ? "nothing arrives" : "messages arrive");
}
MC_SCENARIO(combined_levels, 1)
{
	// a message of several levels arrives with those enabled
	const unsigned filter = mc::choose(32, "filter"), level = mc::choose(32, "level"); ILogger l(&sink<1>, Flag<LogLevel>(filter)); expected = &l; got.clear(); mc::op("level %u, filter %u", level, filter);
	for (const char* t : tricky) { l.log(LogLevel(level), "%s", t); std::vector<Got> want; if (filter & level) want.push_back({ filter & level, t, 1 }); same(want, "a message"); } mc::state(filter * 32 + level); mc::outcome("combined");
}
MC_SCENARIO(console, 1)
{
	const unsigned filter = mc::choose(32, "filter"); const std::string file = std::string(mc::scratch()) + "/console"; mc::op("filter %u", filter); std::string want;
	fflush(stdout); const int keep = dup(1), to = open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (keep < 0 || to < 0) mc::broken("no output file"); dup2(to, 1);
	{
		ConsoleLogger c{ Flag<LogLevel>(filter) }, all; HeapAllocator a; Module m(&a, &c);
		for (unsigned k = 0; k < 5; ++k) { c.log(levels[k], "%s-%d-%u", names[k], -int(k), k); if (filter >> k & 1) want += std::string(names[k]) + ": " + names[k] + "-" + std::to_string(-int(k)) + "-" + std::to_string(k) + "\n"; all.log(levels[k], "all"); want += std::string(names[k]) + ": all\n"; }
		m.logError("%llu", 1ull << 63); if (filter & 8) want += "Error: 9223372036854775808\n"; c.log(LogLevel::None, "nothing");
	}
	fflush(stdout); std::string text; lseek(to, 0, SEEK_SET); char buf[4096]; ssize_t n; while ((n = read(to, buf, sizeof buf)) > 0) text.append(buf, n); dup2(keep, 1); close(keep); close(to); unlink(file.c_str());
	MC_CHECK(text == want, "console", "filter %u prints '%s' instead of '%s'", filter, text.c_str(), want.c_str()); mc::state(filter); mc::outcome("printed");
}
MC_SCENARIO(flags, 1)
{
	// sets of five bits (the lowest and the highest ones), every pair
	const unsigned x = spread(mc::choose(32, "set")); mc::op("set %x", x); using F = Flag<Bits>;
	const F f(x); MC_CHECK(unsigned(f) == x && unsigned(Bits(f)) == x && bool(f) == (x != 0) && f.empty() == (x == 0), "value", "a flag of %x is %x", x, unsigned(f));
	for (unsigned j = 0; j < 32; ++j)
	{
		const unsigned y = spread(j); const F g(y); const Bits b = Bits(y); auto is = [&](unsigned v, unsigned w, const char* what) { MC_CHECK(v == w, what, "%s of %x and %x is %x instead of %x", what, x, y, v, w); };
		is(unsigned(F(f | g)), x | y, "or"); is(unsigned(F(f & g)), x & y, "and"); is(unsigned(F(f ^ g)), x ^ y, "xor"); is(unsigned(F(f | b)), x | y, "or-enum"); is(unsigned(F(f & b)), x & y, "and-enum"); is(unsigned(F(f ^ b)), x ^ y, "xor-enum"); is(unsigned(F(b | f)), x | y, "enum-or"); is(unsigned(F(b & f)), x & y, "enum-and"); is(unsigned(F(b ^ f)), x ^ y, "enum-xor");
		{ F t(f); is(unsigned(t |= g), x | y, "or-assign"); is(unsigned(t), x | y, "or-assign"); t = f; t &= g; is(unsigned(t), x & y, "and-assign"); t = f; t ^= g; is(unsigned(t), x ^ y, "xor-assign"); t = f; t |= b; is(unsigned(t), x | y, "or-assign-enum"); t = f; t &= b; is(unsigned(t), x & y, "and-assign-enum"); t = f; t ^= b; is(unsigned(t), x ^ y, "xor-assign-enum"); t = f; t.set(b); is(unsigned(t), x | y, "set"); }
		is(f.any(b), (x & y) != 0, "any"); is(f.none(b), (x & y) == 0, "none"); is(f.all(b), (x & y) == y, "all"); is(unsigned(F(Bits(x), b)), x | y, "construct"); is(unsigned(F::OR(Bits(x), b)), x | y, "OR"); is(unsigned(F::AND(Bits(x), b)), x & y, "AND"); is(unsigned(F::XOR(Bits(x), b)), x ^ y, "XOR");
		for (unsigned k = 0; k < 32; ++k)
		{
			const unsigned z = spread(k); const Bits c = Bits(z); is(f.any(b, c), (x & (y | z)) != 0, "any of two"); is(f.none(b, c), (x & (y | z)) == 0, "none of two"); is(f.all(b, c), (x & (y | z)) == (y | z), "all of two"); is(unsigned(F::OR(Bits(x), b, c)), x | y | z, "OR of three"); is(unsigned(F::AND(Bits(x), b, c)), x & y & z, "AND of three"); is(unsigned(F::XOR(Bits(x), b, c)), x ^ y ^ z, "XOR of three");
			F t(f); t.set(b, c); is(unsigned(t), x | y | z, "set of two"); is(unsigned(F(Bits(x), b, c)), x | y | z, "construct of three");
		}
	}
	mc::state(x); mc::outcome("a set");
}
MC_SCENARIO(versions, 1)
{
	const unsigned hi = mc::choose(256, "upper part"); mc::op("upper part %u", hi);
	for (unsigned lo = 0; lo < 256; ++lo) { const unsigned v = makeVersion((unsigned char)hi, (unsigned char)lo); MC_CHECK(v == (hi << 16 | lo << 8), "version", "version %u.%u is %x", hi, lo, v); for (unsigned junk : { 0u, 0xff0000ffu }) MC_CHECK(getMajorVersion(v | junk) == hi && getMinorVersion(v | junk) == lo, "version-parts", "version %u.%u reads as %u.%u", hi, lo, getMajorVersion(v), getMinorVersion(v)); }
	for (unsigned low = 0; low < 256; ++low) for (unsigned ver : { 0u, 1u, 0x7fffu, 0x8000u, 0xffffu, low * 257u })
	{ const unsigned gen = hi << 8 | low; const unsigned v = makeGeneratorId((unsigned short)gen, (unsigned short)ver); MC_CHECK(v == (gen << 16 | ver) && getGeneratorId(v) == gen && getGeneratorVersion(v) == ver, "generator", "generator %u version %u is %x and reads as %u, %u", gen, ver, v, getGeneratorId(v), getGeneratorVersion(v)); }
	mc::state(hi); mc::outcome("kept");
}
