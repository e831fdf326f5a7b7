// C10: reading a binary and writing it back preserves every instruction.
#include "corpus.h"
using namespace spvgentwo;
using namespace ir;

namespace
{
	// sections whose order is kept; capabilities, extensions and imports are sets of declarations
	int sectionOf(uint16_t op)
	{
		switch (op)
		{
		case 17: return 0; case 10: return 1; case 11: return 2; case 14: return 3; case 15: return 4; case 16: case 331: return 5;
		case 7: case 2: case 3: case 4: return 6; case 5: case 6: return 7; case 330: return 8;
		case 71: case 72: case 73: case 74: case 75: case 332: case 5632: case 5633: return 9;
		case 8: case 317: return 12; case 59: return 11; case 1: return 13; default: return 10;
		}
	}
	struct Layout { std::map<int, std::vector<Words>> sec; std::vector<std::vector<Words>> funs; std::map<std::vector<Words>, int> bag; };
	Layout layout(const Bin& b, bool& ok)
	{
		Layout l; ok = true; std::vector<Words>* f = nullptr;
		for (auto& i : b.ins)
		{
			if (i.op == 54) { l.funs.emplace_back(); f = &l.funs.back(); }
			if (f) { f->push_back(i.w); if (i.op == 56) f = nullptr; continue; }
			const int s = sectionOf(i.op);
			if (!l.funs.empty() && s != 12) ok = false;
			l.sec[s].push_back(i.w);
		}
		for (int s = 0; s < 3; ++s) { auto& v = l.sec[s]; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
		for (auto& x : l.funs) ++l.bag[x];
		return l;
	}
	// every id an instruction of the global section uses that is already defined at that point
	std::set<std::pair<Words, uint32_t>> definedUses(const Bin& b)
	{
		std::set<uint32_t> defs; std::set<std::pair<Words, uint32_t>> r;
		for (auto& i : b.ins) { if (i.op == 54) break; const int s = sectionOf(i.op); if (s == 10 || s == 11 || s == 13) for (auto& o : i.ops) if (isIdT(o.type) && o.type != SPV_OPERAND_TYPE_RESULT_ID && defs.count(i.w[o.off])) r.insert({ i.w, i.w[o.off] }); if (i.id) defs.insert(i.id); }
		return r;
	}
	const char* lastLog(const Log& l) { return l.last.c_str(); }

	void roundTrip(const Words& orig, const char* what)
	{
		const Bin b = parse(orig); if (!b.ok) { mc::outcome("not well-formed for the reference parser"); if (mc::tracing()) mc::note("reference: %s", b.error.c_str()); return; }
		mc::state(hashWords(orig));
		bool ok; const Layout want = layout(b, ok); if (!ok) mc::broken("corpus module with instructions between functions");
		track::Allocator al; Log log; Words w1;
		{
			Module m(&al, &log); Reader r(orig);
			MC_CHECK(m.read(r, grammar()), (std::string("read:") + what).c_str(), "reading a well-formed module fails (%s): %s%s", what, lastLog(log), trace(orig).c_str());
			Writer w; MC_CHECK(m.write(w), (std::string("write:") + what).c_str(), "writing the module that was read fails (%s): %s", what, lastLog(log)); w1 = w.words;
			const Bin c = parse(w1);
			MC_CHECK(c.ok, "written-malformed", "the written module is not well-formed (%s): %s%s", what, c.error.c_str(), trace(w1).c_str());
			MC_CHECK(c.version == b.version, "version", "version %x becomes %x", b.version, c.version);
			MC_CHECK(c.schema == b.schema, "schema", "schema %x becomes %x", b.schema, c.schema);
			for (auto& i : c.ins) MC_CHECK(i.id < c.bound, "bound", "the written bound %u does not cover id %u (%s)", c.bound, i.id, what);
			const Layout got = layout(c, ok);
			MC_CHECK(ok, "section-order", "the written module has global instructions behind functions (%s)%s", what, trace(w1).c_str());
			for (int s = 0; s <= 13; ++s)
			{
				auto x = want.sec.find(s), y = got.sec.find(s); static const std::vector<Words> none; const auto& a = x == want.sec.end() ? none : x->second; const auto& d = y == got.sec.end() ? none : y->second;
				MC_CHECK(a.size() == d.size(), (std::string("section-count:") + what).c_str(), "section %d has %zu instructions, %zu after the round trip (%s)%s", s, a.size(), d.size(), what, trace(w1).c_str());
				for (size_t i = 0; i < a.size(); ++i) MC_CHECK(a[i] == d[i], (std::string("section-content:") + what).c_str(), "instruction %zu of section %d changes from %s to %s (%s)", i, s, words(a[i]).c_str(), words(d[i]).c_str(), what);
			}
			MC_CHECK(want.bag == got.bag, (std::string("functions:") + what).c_str(), "a function changes in the round trip (%s)\nbefore%s\nafter%s", what, trace(orig).c_str(), trace(w1).c_str());
			const auto du = definedUses(b), dg = definedUses(c); for (auto& u : du) MC_CHECK(dg.count(u), (std::string("order:") + what).c_str(), "instruction %s uses id %u before its definition after the round trip (%s)", words(u.first).c_str(), u.second, what);

			// resolving: ids become instructions, nothing else changes
			Module m2(&al, &log); Reader r2(w1);
			MC_CHECK(m2.read(r2, grammar()), "reread", "reading the written module fails (%s): %s", what, lastLog(log));
			{ Writer x; MC_CHECK(m2.write(x) && x.words == w1, "second-pass", "the second round trip changes the binary (%s)\nfirst%s\nsecond%s", what, trace(w1).c_str(), trace(x.words).c_str()); }
			MC_CHECK(m2.resolveIDs(), (std::string("resolve:") + what).c_str(), "resolving the ids of a well-formed module fails (%s): %s%s", what, lastLog(log), trace(w1).c_str());
			size_t k = 0; std::map<uint32_t, const Instruction*> def;
			m2.iterateInstructions([&](Instruction& i) { if (i.hasResult()) def[uint32_t(i.getResultId())] = &i; });
			m2.iterateInstructions([&](Instruction& i)
			{
				MC_CHECK(k < c.ins.size(), "iterate", "iteration visits more instructions than the binary has (%s)", what);
				const Ins& ref = c.ins[k++]; MC_CHECK(unsigned(i.getOperation()) == ref.op && i.getWordCount() == ref.w.size(), "iterate", "iteration does not follow the binary (%s)", what);
				std::vector<spv_operand_type_t> t(ref.w.size(), SPV_OPERAND_TYPE_LITERAL_INTEGER); for (auto& o : ref.ops) for (unsigned n = 0; n < o.n; ++n) t[o.off + n] = o.type;
				size_t pos = 1;
				for (auto& o : i)
				{
					const uint32_t v = ref.w[pos];
					if (t[pos] == SPV_OPERAND_TYPE_RESULT_ID) MC_CHECK(o.isId() && uint32_t(o.getId()) == v, "resolved-result", "the result id of %s is not kept (%s)", words(ref.w).c_str(), what);
					else if (isIdT(t[pos]))
					{
						const Instruction* p = o.isInstruction() ? o.getInstruction() : o.isBranchTarget() && o.getBranchTarget() ? o.getBranchTarget()->getLabel() : nullptr;
						MC_CHECK(p != nullptr, (std::string("unresolved:") + what).c_str(), "operand %zu of %s refers to id %u but is not resolved (%s)", pos, words(ref.w).c_str(), v, what);
						auto d = def.find(v); MC_CHECK(d != def.end() && d->second == p, "resolved-wrong", "operand %zu of %s is resolved to another instruction than %%%u (%s)", pos, words(ref.w).c_str(), v, what);
					}
					else MC_CHECK(o.isLiteral() && o.getLiteral().value == v, (std::string("literal-resolved:") + what).c_str(), "literal operand %zu of %s is treated as an id (%s)", pos, words(ref.w).c_str(), what);
					++pos;
				}
			});
			MC_CHECK(k == c.ins.size(), "iterate", "iteration visits %zu of %zu instructions (%s)", k, c.ins.size(), what);
			{ Writer x; MC_CHECK(m2.write(x) && x.words == w1, "resolved-write", "resolving the ids changes the binary (%s)%s", what, trace(x.words).c_str()); }
			// reassigned ids: a renaming, nothing else
			m2.assignIDs(); Writer x; MC_CHECK(m2.write(x), "renumber", "writing after assigning ids fails (%s)", what); const Bin d = parse(x.words);
			MC_CHECK(d.ok && d.ins.size() == c.ins.size(), "renumber", "assigning ids changes the module (%s): %s", what, d.error.c_str());
			std::map<uint32_t, uint32_t> ren; std::set<uint32_t> used;
			for (size_t i = 0; i < d.ins.size(); ++i)
			{
				MC_CHECK(d.ins[i].w.size() == c.ins[i].w.size() && d.ins[i].op == c.ins[i].op, "renumber", "assigning ids changes instruction %zu (%s)", i, what);
				std::vector<bool> id(c.ins[i].w.size()); for (auto& o : c.ins[i].ops) if (isIdT(o.type)) id[o.off] = true;
				for (size_t j = 1; j < c.ins[i].w.size(); ++j)
				{
					const uint32_t a = c.ins[i].w[j], e = d.ins[i].w[j];
					if (!id[j]) { MC_CHECK(a == e, "renumber-literal", "assigning ids changes literal %zu of %s to %u (%s)", j, words(c.ins[i].w).c_str(), e, what); continue; }
					auto f = ren.find(a); if (f == ren.end()) { MC_CHECK(used.insert(e).second && e != 0 && e < d.bound, "renumber-id", "id %u becomes %u, which is not a fresh id below the bound %u (%s)", a, e, d.bound, what); ren[a] = e; } else MC_CHECK(f->second == e, "renumber-id", "id %u becomes both %u and %u (%s)", a, f->second, e, what);
				}
			}
		}
		al.expectEmpty("after destruction"); mc::outcome("round trip");
	}
}

MC_SCENARIO(instructions, 2)
{
	const auto& all = corpus::instructions(); const unsigned n = mc::choose(unsigned(all.size()), "instruction"); const spec::Ins& i = *all[n];
	if (corpus::placeOf(i.op, i) == corpus::Place::Structure) return;
	const auto& v = corpus::variants(i, mc::thorough()); if (v.empty()) { mc::outcome("no operands of this kind"); return; }
	const unsigned k = mc::choose(unsigned(v.size()), "variant"); mc::op("%s(variant %u)", i.names[0].c_str(), k);
	if (mc::tracing()) mc::note("operands %s", words(v[k]).c_str());
	const Words& w = v[k]; const std::string& name = i.names[0];
	// the library takes an empty name of an extension, import or entry point for a malformed module
	if ((name == "OpExtension" && w.size() == 1 && w[0] == 0) || (name == "OpExtInstImport" && w.size() == 2 && w[1] == 0) || (name == "OpEntryPoint" && w.size() > 2 && w[2] == 0)) { mc::outcome("empty name"); return; }
	std::string what = name; if (i.op == 251 && w[0] == corpus::CLONG) what += " with 64-bit selector"; if (i.op == 52 && std::count(w.begin() + 3, w.end(), uint32_t(corpus::VAR))) what += " of a variable";
	roundTrip(corpus::module(i, w), what.c_str());
}

// shape of a module: functions, entry points, parameters, what stands between
MC_SCENARIO(functions, 8)
{
	using namespace corpus; Parts p = skeleton(); p.functions.clear(); p.entries.clear(); p.modes.clear(); p.names.clear(); const char* what = "function structure";
	const unsigned n = mc::choose(unsigned(mc::bound(3, 4)), "functions"); uint32_t id = 30; std::vector<uint32_t> fun; p.bound = 100;
	p.types.push_back(op(33, { 90, VOID, INT })); p.types.push_back(op(33, { 91, VOID, INT, FLOAT })); const uint32_t fty[] = { FUNTYPE, 90, 91 };
	for (unsigned f = 0; f < n; ++f) fun.push_back(id++);
	for (unsigned f = 0; f < n; ++f)
	{
		const unsigned params = mc::choose(3, "parameters"), body = mc::choose(4, "blocks"), eps = mc::choose(body ? 3 : 1, "entry points");
		mc::op("function %%%u: %u parameters, %u blocks, %u entry points", fun[f], params, body, eps);
		for (unsigned e = 0; e < eps; ++e) { p.entries.push_back(op(15, cat(cat({ e == 0 ? 5u : 4u, fun[f] }, str(std::string(1, char('a' + f)) + char('0' + e))), { VAR }))); if (e == 1) { what = "two entry points of one function"; mc::state(7); } }
		if (eps) p.modes.push_back(op(16, { fun[f], 17, 1, 2, 3 }));
		p.names.push_back(op(5, cat({ fun[f] }, str(std::string("f") + char('0' + f)))));
		auto& o = p.functions; o.push_back(op(54, { VOID, fun[f], f, fty[params] }));
		for (unsigned i = 0; i < params; ++i) o.push_back(op(55, { i ? uint32_t(FLOAT) : uint32_t(INT), id++ }));
		std::vector<uint32_t> lab; for (unsigned b = 0; b < body; ++b) lab.push_back(id++);
		for (unsigned b = 0; b < body; ++b)
		{
			o.push_back(op(248, { lab[b] })); if (b == 0) o.push_back(op(57, { VOID, id++, fun[(f + 1) % n] })); // forward reference to a function
			if (b == 1) o.push_back(op(245, { INT, id++, CINT, lab[0], id, lab[1] })), o.push_back(op(128, { INT, id++, CINT, CINT }));
			if (b + 1 == body) o.push_back(op(253)); else if (b == 1) { o.push_back(op(246, { lab[2], lab[1], 0 })); o.push_back(op(249, { lab[1] })); } else o.push_back(op(249, { lab[b + 1] }));
		}
		o.push_back(op(56));
	}
	if (n == 0) p.names = { op(5, cat({ INT }, str("i"))) };
	roundTrip(p.words(), what);
}
// what can be repeated, mixed or missing outside functions; two of these at a time
MC_SCENARIO(sections, 4)
{
	using namespace corpus; Parts p = skeleton(); p.bound = 120; p.functions = { op(54, { VOID, MAIN, 0, FUNTYPE }), op(248, { ENTRY }), op(253), op(56) }; std::string what;
	struct Feature { const char* name; void (*f)(Parts&); bool alone = false; };
	static const Feature fs[] = {
		{ "nothing", [](Parts&) {} },
		{ "repeated capability", [](Parts& p) { p.caps.push_back(op(17, { 1 })); } },
		{ "repeated extension", [](Parts& p) { for (auto e : { "SPV_KHR_a", "SPV_KHR_b", "SPV_KHR_a" }) p.exts.push_back(op(10, str(e))); } },
		{ "repeated import", [](Parts& p) { p.imports.push_back(op(11, cat({ 70 }, str("GLSL.std.450")))); p.functions.insert(p.functions.begin() + 2, op(12, { FLOAT, 71, 70, 31, CFLOAT })); } },
		{ "import of an unknown set", [](Parts& p) { p.imports.push_back(op(11, cat({ 72 }, str("NonSemantic.x")))); p.functions.insert(p.functions.begin() + 2, op(12, { VOID, 73, 72, 100, CINT, CFLOAT })); } },
		{ "no extended instruction sets", [](Parts& p) { p.imports.clear(); } },
		{ "several sources", [](Parts& p) { p.strings.push_back(op(3, cat({ 2, 450, FILENAME }, str("void main() {")))); p.strings.push_back(op(2, str("int x;"))); p.strings.push_back(op(2, str("int x; }"))); p.strings.push_back(op(3, { 0, 1 })); p.strings.push_back(op(4, str("GL_x"))); p.strings.push_back(op(7, cat({ 74 }, str("b.comp")))); } },
		{ "several names", [](Parts& p) { for (auto n : { "x", "x", "y" }) { p.names.push_back(op(5, cat({ VAR }, str(n)))); p.names.push_back(op(6, cat({ STRUCT, 1 }, str(n)))); p.names.push_back(op(6, cat({ STRUCT, 0 }, str(n)))); } p.names.push_back(op(5, cat({ VOID }, str("")))); } },
		{ "modules processed", [](Parts& p) { p.processed.push_back(op(330, str("pass one"))); p.processed.push_back(op(330, str("pass two"))); p.processed.push_back(op(330, str("pass one"))); } },
		{ "decoration groups", [](Parts& p) { p.annotations.push_back(op(71, { 75, 0 })); p.annotations.push_back(op(73, { 75 })); p.annotations.push_back(op(74, { 75, VAR, CINT })); p.annotations.push_back(op(71, { 76, 35, 4 })); p.annotations.push_back(op(73, { 76 })); p.annotations.push_back(op(75, { 76, STRUCT, 0, STRUCT, 1 })); } },
		{ "repeated decorations", [](Parts& p) { for (unsigned i = 0; i < 3; ++i) { p.annotations.push_back(op(71, { CINT, 1, i % 2 })); p.annotations.push_back(op(72, { STRUCT, i % 2, 35, 0 })); } } },
		{ "recursive pointer", [](Parts& p) { p.types.push_back(op(39, { 77, 7 })); p.types.push_back(op(30, { 78, INT, 77 })); p.types.push_back(op(32, { 77, 7, 78 })); } },
		{ "repeated types and constants", [](Parts& p) { p.types.push_back(op(30, { 79, INT, FLOAT })); p.types.push_back(op(28, { 80, FLOAT, CUINT })); p.types.push_back(op(28, { 81, FLOAT, CUINT })); p.types.push_back(op(43, { UINT, 82, 3 })); p.types.push_back(op(43, { UINT, 83, 3 })); p.types.push_back(op(32, { 84, 6, INT })); } },
		{ "variable before types", [](Parts& p) { p.types.push_back(op(59, { PTR, 85, 6, CINT })); p.types.push_back(op(22, { 86, 16 })); p.types.push_back(op(43, { 86, 87, 0x3c00 })); p.types.push_back(op(32, { 88, 6, 86 })); p.types.push_back(op(59, { 88, 89, 6, 87 })); } },
		{ "undef", [](Parts& p) { p.types.push_back(op(1, { INT, 90 })); p.types.push_back(op(22, { 91, 16 })); p.types.push_back(op(1, { 91, 92 })); } },
		{ "undef used by a constant", [](Parts& p) { p.types.push_back(op(1, { FLOAT, 93 })); p.types.push_back(op(44, { VEC4, 94, 93, 93, 93, 93 })); }, true },
		{ "lines between globals", [](Parts& p) { p.types.insert(p.types.begin() + 3, op(8, { FILENAME, 1, 2 })); p.types.insert(p.types.begin() + 8, op(317)); p.types.push_back(op(8, { FILENAME, 3, 4 })); } },
		{ "lines in a block", [](Parts& p) { p.functions.insert(p.functions.begin() + 2, op(8, { FILENAME, 5, 6 })); p.functions.insert(p.functions.begin() + 3, op(317)); } },
		{ "line before a function", [](Parts& p) { p.functions.insert(p.functions.begin(), op(8, { FILENAME, 7, 8 })); } },
		{ "line before a label", [](Parts& p) { p.functions.insert(p.functions.begin() + 1, op(8, { FILENAME, 7, 8 })); }, true },
		{ "other version", [](Parts& p) { p.version = 0x00010000; } },
		{ "other version and bound", [](Parts& p) { p.version = 0x00010300; p.bound = 4000; } },
		{ "execution modes", [](Parts& p) { p.modes.push_back(op(16, { MAIN, 38, 2, 2, 2 })); p.modes.push_back(op(331, { MAIN, 38, CUINT, CUINT, CUINT })); p.modes.push_back(op(16, { MAIN, 17, 1, 1, 1 })); } },
		{ "spec constants", [](Parts& p) { p.types.push_back(op(48, { BOOL, 95 })); p.types.push_back(op(49, { BOOL, 96 })); p.types.push_back(op(50, { INT, 97, 5 })); p.types.push_back(op(51, { VEC4, 98, CFLOAT, CFLOAT, CFLOAT, CFLOAT })); p.types.push_back(op(52, { INT, 99, 128, 97, CINT })); p.types.push_back(op(28, { 100, FLOAT, 97 })); p.annotations.push_back(op(71, { 97, 1, 9 })); } },
		{ "no functions", [](Parts& p) { p.functions.clear(); p.entries.clear(); p.modes.clear(); p.names.clear(); } },
		{ "no types", [](Parts& p) { p.functions.clear(); p.entries.clear(); p.modes.clear(); p.names.clear(); p.types.clear(); p.annotations.clear(); } },
		{ "memory model only", [](Parts& p) { const uint32_t v = p.version; const auto mem = p.memory; p = Parts(); p.version = v; p.memory = mem; } },
	};
	constexpr unsigned N = sizeof fs / sizeof *fs; const unsigned k = mc::bound(2, 3); unsigned prev = 0;
	for (unsigned i = 0; i < k; ++i) { const unsigned c = prev + mc::choose(N - prev, "feature"); mc::op("%s", fs[c].name); if (prev && c != prev && (fs[c].alone || fs[prev].alone)) return; if (c && c != prev) { fs[c].f(p); if (!what.empty()) what += ", "; what += fs[c].name; } prev = c; }
	roundTrip(p.words(), what.c_str());
}

// many of one thing, built by the library
#include "scale.h"
MC_SCENARIO(large, 2)
{
	Words w; std::string what; { track::Allocator al; Log log; Module m(&al, &log); prog::Ctx c(m); prog::start(c); ++c.n; const scale::Pick p = scale::choose(1, 200000); p.shape->run(c, p.n); prog::finish(c); Writer x; if (!m.finalizeAndWrite(x, &grammar())) { mc::outcome("not written"); return; } w = x.words; what = std::string("many ") + p.shape->name; }
	roundTrip(w, what.c_str());
}
