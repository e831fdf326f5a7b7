// C11: reading malformed or truncated input fails cleanly.
#include "corpus.h"
using namespace spvgentwo;
using namespace ir;

namespace
{
	// why a stream is structurally broken, "" when it is not: header, word counts, opcodes, missing or surplus operands,
	// strings, unfinished functions. Everything else (ids, enumerants, ordering) is not this property's business.
	std::string broken(const Words& w)
	{
		if (w.empty() || w[0] != 0x07230203) return "no magic number"; if (w.size() < 5) return "incomplete header";
		bool fun = false, block = false;
		for (size_t i = 5; i < w.size();)
		{
			const unsigned n = w[i] >> 16, op = w[i] & 0xffff; if (n == 0) return "zero word count"; if (i + n > w.size()) return "instruction beyond the end";
			if (spec::g().ins.count(op) == 0) { if (!grammar().getInfo(op)) return "unknown opcode"; return "?"; } // newer than the reference
			if (op == 54) { if (fun) return "?function in a function"; fun = true; block = false; }
			else if (op == 56) { if (!fun || block) return "?misplaced OpFunctionEnd"; fun = false; }
			else if (op == 248) { if (!fun || block) return "?misplaced label"; block = true; }
			else if (block) { static const std::set<unsigned> t = { 249, 250, 251, 252, 253, 254, 255, 4416, 4448, 4449, 5294 }; if (t.count(op)) block = false; }
			i += n;
		}
		if (fun) return "unfinished function";
		Words x = w; x[1] = 0x00010600; x[3] = 0x3fffff; x[4] = 0;
		const Bin b = parse(x); if (b.ok) return ""; if (b.error.find("OpConstant starting") != std::string::npos || b.error.find("OpSpecConstant starting") != std::string::npos || b.error.find("OpSwitch starting") != std::string::npos) return "?width"; // depends on types
		for (auto m : { "expected more operands", "more operand", "expected no more operands", "no more operands", "ended prematurely", "literal string", "End of input" }) if (b.error.find(m) != std::string::npos) return b.error;
		return "?" + b.error;
	}
	void readIt(const Words& w, const char* what)
	{
		mc::state(hashWords(w)); const std::string why = broken(w); track::Allocator al; Log log;
		{
			Module m(&al, &log); Reader r(w); const bool ok = m.read(r, grammar());
			if (!why.empty() && why[0] != '?') { MC_CHECK(!ok, (std::string("accepted:") + sig(why)).c_str(), "reading succeeds although the input is broken: %s (%s)\n%s", why.c_str(), what, words(w).c_str()); mc::outcome("rejected"); }
			else if (why.empty()) mc::outcome(ok ? "accepted" : "well-formed but rejected"); else mc::outcome(ok ? "other defect, accepted" : "other defect, rejected");
			if (ok)
			{
				// whatever the operands say, the rest of the pipeline must survive it
				const bool resolved = m.resolveIDs(); if (resolved) { const bool names = m.reconstructNames(), types = m.reconstructTypeAndConstantInfo(); mc::outcome(names && types ? "initialised" : "initialisation fails"); m.finalize(); }
				else mc::outcome("ids not resolvable");
			}
			// the module can be reused
			m.reset(); static const Words good = corpus::skeleton().words(); Reader g(good); MC_CHECK(m.readAndInit(g, grammar()), "reuse", "after %s the module cannot be reset and reused: %s", what, log.last.c_str());
			static const Words expected = [&] { Log l; Module fresh(HeapAllocator::instance(), &l); Reader g2(good); Writer b; if (!fresh.readAndInit(g2, grammar()) || !fresh.write(b)) mc::broken("good module not readable"); return b.words; }();
			Writer a; MC_CHECK(m.write(a) && a.words == expected, "reuse", "after %s and reset the module is not empty%s", what, trace(a.words).c_str());
		}
		al.expectEmpty("after destruction");
	}
	// a module with every kind of section and every type and constant with operands
	const corpus::Parts& rich()
	{
		using namespace corpus;
		static const Parts p = [] {
			Parts p = skeleton(); p.bound = 140;
			p.exts = { op(10, str("SPV_KHR_a")) };
			p.entries.push_back(op(15, cat(cat({ 4, HELPER }, str("h")), { VAR, 90 }))); p.modes.push_back(op(331, { MAIN, 38, CUINT, CUINT, CUINT }));
			p.strings.push_back(op(3, cat({ 2, 450, FILENAME }, str("x")))); p.strings.push_back(op(2, str("y"))); p.names.push_back(op(6, cat({ STRUCT, 1 }, str("m")))); p.names.push_back(op(5, cat({ 91 }, str("arr"))));
			p.processed = { op(330, str("p")) }; p.annotations.push_back(op(72, { STRUCT, 0, 35, 0 })); p.annotations.push_back(op(71, { 92, 0 })); p.annotations.push_back(op(73, { 92 })); p.annotations.push_back(op(74, { 92, VAR })); p.annotations.push_back(op(71, { 101, 1, 7 }));
			p.types.push_back(op(59, { PTR, 90, 6, CINT })); p.types.push_back(op(28, { 91, FLOAT, CUINT })); p.types.push_back(op(29, { 93, INT })); p.types.push_back(op(24, { 94, VEC4, 2 })); p.types.push_back(op(25, { 95, FLOAT, 1, 0, 0, 0, 1, 0 })); p.types.push_back(op(25, { 110, FLOAT, 1, 0, 0, 0, 1, 0, 1 }));
			p.types.push_back(op(27, { 96, 95 })); p.types.push_back(op(26, { 97 })); p.types.push_back(op(39, { 98, 7 })); p.types.push_back(op(30, { 99, INT, 98 })); p.types.push_back(op(32, { 98, 7, 99 })); p.types.push_back(op(33, { 100, INT, INT, 91 }));
			p.types.push_back(op(50, { UINT, 101, 4 })); p.types.push_back(op(28, { 102, INT, 101 })); p.types.push_back(op(41, { BOOL, 103 })); p.types.push_back(op(48, { BOOL, 104 })); p.types.push_back(op(46, { STRUCT, 105 })); p.types.push_back(op(44, { STRUCT, 106, CINT, CFLOAT })); p.types.push_back(op(51, { VEC4, 107, CFLOAT, CFLOAT, CFLOAT, CFLOAT })); p.types.push_back(op(52, { UINT, 108, 128, 101, CUINT })); p.types.push_back(op(1, { INT, 109 })); p.types.push_back(op(8, { FILENAME, 1, 1 }));
			p.types.push_back(op(45, { 97, 111, 0, 0, 0 }));
			auto& o = p.functions; o.clear();
			for (auto& i : { op(54, { VOID, MAIN, 0, FUNTYPE }), op(248, { ENTRY }), op(61, { INT, 120, VAR }), op(128, { INT, VAL, CINT, 120 }), op(12, { FLOAT, 121, GLSL, 31, CFLOAT }), op(57, { INT, 122, 130, CINT, 123 }), op(81, { FLOAT, 124, CVEC, 3 }), op(247, { 125, 0 }), op(251, { VAL, NEXT, 1, 125, 7, NEXT }), op(248, { NEXT }), op(249, { 125 }), op(248, { 125 }), op(245, { INT, 126, CINT, ENTRY, VAL, NEXT }), op(62, { VAR, 126, 2, 4 }), op(253), op(56),
				op(54, { VOID, HELPER, 1, FUNTYPE }), op(248, { HENTRY }), op(250, { 103, 127, 127 }), op(248, { 127 }), op(253), op(56),
				op(54, { INT, 130, 0, 100 }), op(55, { INT, 131 }), op(55, { 91, 132 }), op(248, { 133 }), op(254, { 131 }), op(56) }) o.push_back(i);
			Parts q = p; auto& f = q.functions; f.erase(f.begin() + 5); q.functions = f; return q; // the call's array argument has no value: leave it out
		}();
		return p;
	}
	struct Pos { size_t off; bool first; };
	const std::vector<Pos>& positions(const Words& w) { static std::map<const Words*, std::vector<Pos>> c; auto& v = c[&w]; if (v.empty()) { for (size_t i = 0; i < 5; ++i) v.push_back({ i, false }); for (size_t i = 5; i < w.size(); i += w[i] >> 16) { v.push_back({ i, true }); for (size_t k = 1; k < (w[i] >> 16); ++k) v.push_back({ i + k, false }); } } return v; }
}

// the module ends at every word
MC_SCENARIO(truncated, 1)
{
	static const Words w = rich().words(); MC_CHECK(broken(w).empty(), "base", "base module: %s", broken(w).c_str());
	const unsigned n = mc::choose(unsigned(w.size()) + 1, "words"); mc::op("first %u of %zu words", n, w.size()); readIt(Words(w.begin(), w.begin() + n), "truncation");
}
// every word replaced by hostile values, by every id of the module, by other word counts and opcodes
MC_SCENARIO(mutated, 2)
{
	static const Words w = rich().words(); const auto& p = positions(w); const unsigned i = mc::choose(unsigned(p.size()), "position"); const uint32_t o = w[p[i].off]; Words x = w;
	if (p[i].first)
	{
		static const std::vector<unsigned> ops = [] { std::vector<unsigned> v; for (auto& k : spec::g().ins) if (mc::thorough() || k.first < 400) v.push_back(k.first); v.push_back(0xffff); v.push_back(9); return v; }();
		const unsigned n = unsigned(ops.size()), c = mc::choose(n + 9, "value");
		if (c < n) x[p[i].off] = (o & 0xffff0000u) | ops[c];
		else { const unsigned wc = o >> 16; const unsigned v[] = { 0, 1, 2, wc - 1, wc + 1, wc + 2, wc + 5, 0x7fff, 0xffff }; x[p[i].off] = v[c - n] << 16 | (o & 0xffff); }
	}
	else
	{
		static const std::vector<uint32_t> vals = { 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x01010101u, 0x00010000u, 0x0000ffffu, 400, 128, 64, 16, 8 };
		static const std::vector<uint32_t> ids = [] { std::vector<uint32_t> v; for (unsigned k = 0; k < 140; ++k) if (mc::thorough() || k < 28 || (k >= 90 && k < 135)) v.push_back(k); return v; }();
		const unsigned n = unsigned(ids.size()), c = mc::choose(unsigned(n + vals.size()), "value"); x[p[i].off] = c < n ? ids[c] : vals[c - n];
	}
	if (x == w) return;
	mc::op("word %zu: %x becomes %x", p[i].off, o, x[p[i].off]); readIt(x, "a changed word");
}
// two words at once around structure: word counts of one instruction and one operand of it or its neighbour
MC_SCENARIO(mutated_pairs, 3)
{
	static const Words w = rich().words(); static const std::vector<size_t> firsts = [] { std::vector<size_t> v; for (auto& q : positions(w)) if (q.first) v.push_back(q.off); return v; }();
	const unsigned i = mc::choose(unsigned(firsts.size()), "instruction"), d = mc::choose(unsigned(mc::bound(3, 5)), "kind"); Words x(w.begin(), w.begin() + firsts[i]); const unsigned n = w[firsts[i]] >> 16; const size_t end = firsts[i] + n; Words ins(w.begin() + firsts[i], w.begin() + end);
	if (d == 0) { const unsigned k = mc::choose(n, "drop"); ins.resize(k + 1); mc::op("instruction %u keeps %u operands", i, k); } // k == n-1: unchanged
	else if (d == 1) { const unsigned k = mc::choose(4, "extra"); const unsigned v = mc::choose(4, "word"); static const uint32_t e[] = { 0, 4, 1, 0xffffffffu }; for (unsigned q = 0; q <= k; ++q) ins.push_back(e[v]); mc::op("instruction %u gets %u words %x", i, k + 1, e[v]); }
	else if (d == 2) { ins.clear(); mc::op("instruction %u removed", i); }
	else if (d == 3) { const unsigned j = mc::choose(unsigned(firsts.size()), "with"); const size_t b = firsts[j]; Words other(w.begin() + b, w.begin() + b + (w[b] >> 16)); if (j >= i) ins.insert(ins.end(), other.begin(), other.end()); else ins = other; mc::op("instruction %u %s by instruction %u", i, j >= i ? "followed" : "replaced", j); }
	else { const unsigned j = mc::choose(unsigned(firsts.size()), "swap"); if (j <= i) return; const size_t b = firsts[j], e = b + (w[b] >> 16); Words y(w.begin(), w.begin() + firsts[i]); y.insert(y.end(), w.begin() + b, w.begin() + e); y.insert(y.end(), w.begin() + end, w.begin() + b); y.insert(y.end(), ins.begin(), ins.end()); y.insert(y.end(), w.begin() + e, w.end()); mc::op("instructions %u and %u exchanged", i, j); readIt(y, "exchanged instructions"); return; }
	if (!ins.empty()) ins[0] = uint32_t(ins.size()) << 16 | (ins[0] & 0xffff);
	if (d == 3) { ins = Words(w.begin() + firsts[i], w.begin() + end); }
	x.insert(x.end(), ins.begin(), ins.end());
	if (d == 3) { const unsigned j = mc::choose(unsigned(firsts.size()), "insert"); const size_t b = firsts[j]; x.insert(x.end(), w.begin() + b, w.begin() + b + (w[b] >> 16)); mc::op("instruction %u inserted behind %u", j, i); }
	x.insert(x.end(), w.begin() + end, w.end()); readIt(x, "a changed instruction");
}
// every known instruction with operands cut off or added, or the stream ending inside it
MC_SCENARIO(operands, 3)
{
	const auto& all = corpus::instructions(); const unsigned n = mc::choose(unsigned(all.size()), "instruction"); const spec::Ins& i = *all[n];
	if (corpus::placeOf(i.op, i) == corpus::Place::Structure) return;
	const auto& vs = corpus::variants(i, false); if (vs.empty()) return; const unsigned nv = std::min<unsigned>(unsigned(vs.size()), unsigned(mc::bound(2, 12)));
	Words v = vs[mc::choose(nv, "variant")]; const unsigned kind = mc::choose(3, "kind");
	if (kind == 0) { if (v.empty()) return; const unsigned k = mc::choose(unsigned(v.size()), "operands"); v.resize(k); mc::op("%s with %u operand words", i.names[0].c_str(), k); }
	else if (kind == 1) { const unsigned k = mc::choose(3, "extra"); for (unsigned e = 0; e <= k; ++e) v.push_back(k == 2 ? 0xffffffffu : corpus::CINT); mc::op("%s with %u surplus words", i.names[0].c_str(), k + 1); }
	else { const unsigned k = mc::choose(unsigned(v.size()) + 1, "keep"); const Words m = corpus::module(i, v); const Words whole = corpus::op(i.op, v); auto it = std::search(m.begin() + 5, m.end(), whole.begin(), whole.end()); if (it == m.end()) return; mc::op("%s, input ends after %u words", i.names[0].c_str(), k); readIt(Words(m.begin(), it + k), i.names[0].c_str()); return; }
	readIt(corpus::module(i, v), i.names[0].c_str());
}
// short streams over a hostile alphabet
MC_SCENARIO(streams, 3)
{
	Words w = { 0x07230203, 0x00010300, 0, 40, 0 }; static const uint32_t a[] = { 0, 1, 2, 3, 0xffffffffu, 2u << 16 | 17, 1u << 16 | 17, 3u << 16 | 15, 5u << 16 | 54, 2u << 16 | 248, 1u << 16 | 56, 1u << 16 | 253, 4u << 16 | 21, 4u << 16 | 43, 4u << 16 | 59, 3u << 16 | 11, 0xffffu << 16 | 12, 2u << 16 | 10, 3u << 16 | 5, 2u << 16 | 19 };
	const unsigned len = unsigned(mc::bound(4, 5));
	for (unsigned i = 0; i < len; ++i) { const unsigned c = mc::choose(21, "word"); if (c == 20) break; w.push_back(a[c]); }
	readIt(w, "a short stream");
}
// sequences of small well-formed instructions that refer to each other, to themselves and to nothing
MC_SCENARIO(references, 2)
{
	using corpus::op; using corpus::cat; using corpus::str; Words w = { 0x07230203, 0x00010300, 0, 10, 0 };
	static const std::vector<Words> alpha = [] {
		std::vector<Words> v; const uint32_t ids[] = { 1, 2, 3 };
		v.push_back(op(19, { 1 })); v.push_back(op(21, { 1, 32, 1 })); v.push_back(op(22, { 2, 32 })); v.push_back(op(20, { 2 })); v.push_back(op(21, { 2, 0, 7 })); v.push_back(op(26, { 1 })); v.push_back(op(30, { 3 }));
		for (uint32_t a : ids) for (uint32_t b : ids)
		{
			v.push_back(op(23, { a, b, 2 })); v.push_back(op(24, { a, b, 0 })); v.push_back(op(29, { a, b })); v.push_back(op(30, { a, b, b })); v.push_back(op(32, { a, 6, b })); v.push_back(op(27, { a, b })); v.push_back(op(25, { a, b, 1, 0, 0, 0, 1, 0 })); v.push_back(op(33, { a, b }));
			v.push_back(op(28, { a, b, 3 })); v.push_back(op(28, { a, 1, b })); v.push_back(op(43, { a, b, 5 })); v.push_back(op(44, { a, b, b })); v.push_back(op(46, { a, b })); v.push_back(op(41, { a, b })); v.push_back(op(50, { a, b, 5, 6 })); v.push_back(op(52, { a, b, 128, 1, 2 })); v.push_back(op(51, { a, b }));
			v.push_back(op(59, { a, b, 6 })); v.push_back(op(59, { a, b, 6, 3 })); v.push_back(op(1, { a, b }));
			v.push_back(cat(cat(op(54, { a, b, 0, 3 }), op(248, { 4 })), cat(op(253), op(56)))); v.push_back(cat(cat(op(54, { a, 4, 0, b }), op(55, { 1, 5 })), op(56)));
		}
		for (uint32_t a : ids) { v.push_back(op(5, cat({ a }, str("n")))); v.push_back(op(6, cat({ a, 7 }, str("n")))); v.push_back(op(71, { a, 30, 1 })); v.push_back(op(72, { a, 9, 35, 1 })); v.push_back(op(15, cat(cat({ 5, a }, str("e")), { 2 }))); v.push_back(op(16, { a, 17, 1, 1, 1 })); v.push_back(op(39, { a, 6 })); v.push_back(op(73, { a })); v.push_back(op(74, { a, 1 })); v.push_back(op(11, cat({ a }, str("GLSL.std.450")))); v.push_back(op(7, cat({ a }, str("s")))); v.push_back(op(45, { 1, a, 0, 0, 0 })); }
		return v; }();
	const unsigned len = unsigned(mc::bound(2, 3));
	for (unsigned i = 0; i < len; ++i) { const unsigned c = mc::choose(unsigned(alpha.size()) + 1, "instruction"); if (c == alpha.size()) break; w.insert(w.end(), alpha[c].begin(), alpha[c].end()); }
	if (mc::tracing()) mc::note("%s", words(w).c_str());
	readIt(w, "a sequence of references");
}

// large modules broken at the first, the last and some instructions between
#include "scale.h"
MC_SCENARIO(large_modules, 2)
{
	const scale::Pick p = scale::choose(mc::bound(5, 1), mc::bound(300, 1025)); const unsigned at = mc::choose(6, "where"), how = mc::choose(10, "how");
	Words w;
	{
		track::Allocator al; Log log; Module m(&al, &log); prog::Ctx c(m); prog::start(c); ++c.n; p.shape->run(c, p.n); prog::finish(c); Writer out;
		if (!m.finalizeAndWrite(out)) mc::broken("the module cannot be written: %s", log.last.c_str()); w = out.words;
	}
	std::vector<size_t> firsts; for (size_t i = 5; i < w.size(); i += w[i] >> 16) firsts.push_back(i);
	const size_t n = firsts.size(), which[6] = { n / 8, n / 4, n / 2, n - n / 4, n - n / 8, n - 1 }, i = firsts[which[at]], len = w[i] >> 16, q = len / 2; const uint32_t o = w[i]; Words x = w;
	switch (how)
	{
	case 0: x.resize(i); break;
	case 1: x.resize(i + 1); break;
	case 2: x.resize(i + q + 1); break;
	case 3: x.resize(i + len - 1); break;
	case 4: x[i] = o & 0xffff; break;
	case 5: x[i] = o + 0x10000; break;
	case 6: x[i] = o | 0xffff0000u; break;
	case 7: x[i] = (o & 0xffff0000u) | 0xffff; break;
	case 8: x.insert(x.begin() + i + len, 0x01010101u); x[i] = o + 0x10000; break;
	case 9: x.erase(x.begin() + i + len - 1); x[i] = o - 0x10000; break;
	}
	mc::op("instruction %zu of %zu (%zu words), defect %u", which[at], n, len, how); readIt(x, "a broken large module");
}
