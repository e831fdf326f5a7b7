// C26: the disassembly names every instruction and operand correctly.
#include "corpus.h"
#include "programs.h"
#include "common/ModulePrinter.h"
#include "spvgentwo/String.h"
#include "spvgentwo/ModuleTemplate.inl"
#include <cmath>
using namespace spvgentwo;
using namespace ir;

namespace
{
	namespace MP = ModulePrinter; using Bits = MP::PrintOptionsBits;
	enum : unsigned { PREAMBLE = 1, INSTR = 2, OPERAND = 4, RESULT = 8, OPNAME = 16, TYPENAME = 32, CONST = 64, ALL = 127 };
	MP::PrintOptions flags(unsigned o) { MP::PrintOptions f; for (unsigned b = 0; b < 7; ++b) if (o >> b & 1) f |= Bits(1u << b); return f; }
	using Set = std::vector<std::string>; using Pieces = std::vector<Set>;

	// what the binary says about ids
	struct Env
	{
		std::map<uint32_t, const Ins*> def; std::map<uint32_t, Set> names; std::map<uint32_t, std::string> type; std::map<uint32_t, Set> value; std::set<uint32_t> labels; std::map<uint32_t, int> sets; std::map<uint32_t, uint32_t> typeOf;
		static std::string text(const Words& w, size_t p) { std::string s; for (; p < w.size(); ++p) for (int k = 0; k < 4; ++k) { const char c = char(w[p] >> (8 * k)); if (!c) return s; s += c; } return s; }
		std::string scalar(const Ins& t) const
		{
			if (t.op == 20) return "bool"; if (t.op == 21) { const uint32_t w = t.w[2]; if (w != 8 && w != 16 && w != 32 && w != 64) return ""; return (t.w[3] ? "int" : "uint") + std::to_string(w); }
			if (t.op == 22) { if (t.w.size() > 3) return ""; return t.w[2] == 16 ? "half" : t.w[2] == 32 ? "float" : t.w[2] == 64 ? "double" : ""; } return "";
		}
		Set number(const Ins& t, const Words& w, size_t p) const // texts of a literal of that type
		{
			Set r; if (t.op == 21)
			{
				const unsigned bits = t.w[2]; if (bits > 64 || (bits > 32 && w.size() < p + 2)) return r; uint64_t v = w[p]; if (bits > 32) v |= uint64_t(w[p + 1]) << 32; if (t.w[3]) { int64_t s = bits == 64 ? int64_t(v) : bits == 32 ? int32_t(v) : bits == 16 ? int16_t(v) : bits == 8 ? int8_t(v) : int64_t(v); r.push_back(std::to_string(s)); }
				else r.push_back(std::to_string(bits == 16 ? uint16_t(v) : bits == 8 ? uint8_t(v) : v)); return r;
			}
			if (t.op == 22 && (t.w[2] == 32 || t.w[2] == 64)) { double d; if (t.w[2] == 32) { float f; memcpy(&f, &w[p], 4); d = f; } else { if (w.size() < p + 2) return r; uint64_t v = w[p] | uint64_t(w[p + 1]) << 32; memcpy(&d, &v, 8); } char b[400]; for (const char* f : { "%f", "%g", "%.9g", "%.17g" }) { snprintf(b, sizeof b, f, d); r.push_back(b); } return r; }
			if (t.op == 22 && t.w[2] == 16) { const uint32_t h = w[p]; const int e = h >> 10 & 31; const double m = h & 1023; double d = e == 0 ? m * std::pow(2.0, -24) : e == 31 ? (m ? NAN : INFINITY) : (1 + m / 1024) * std::pow(2.0, e - 15); if (h & 0x8000) d = -d; char b[100]; for (const char* f : { "%f", "%g" }) { snprintf(b, sizeof b, f, d); r.push_back(b); } r.push_back(std::to_string(w[p])); }
			return r;
		}
		explicit Env(const Bin& b)
		{
			for (auto& i : b.ins)
			{
				if (i.id) { def[i.id] = &i; typeOf[i.id] = i.type; } if (i.op == 5) names[i.w[1]].push_back(text(i.w, 2)); if (i.op == 248) labels.insert(i.id);
				if (i.op == 11) { const std::string n = text(i.w, 2); sets[i.id] = n == "GLSL.std.450" ? 1 : n == "OpenCL.std" ? 2 : 0; }
				if (i.op == 19) type[i.id] = "void"; std::string s = scalar(i); if (!s.empty()) type[i.id] = s;
				if (i.op == 23 && def.count(i.w[2]) && i.w[3] <= 4 && i.w[3] >= 2) { s = scalar(*def[i.w[2]]); if (!s.empty()) type[i.id] = s + "_" + std::to_string(i.w[3]); }
				if (i.op == 24 && def.count(i.w[2]) && def[i.w[2]]->op == 23) { const Ins& c = *def[i.w[2]]; if (def.count(c.w[2]) && i.w[3] >= 2 && i.w[3] <= 4 && c.w[3] >= 2 && c.w[3] <= 4) { s = scalar(*def[c.w[2]]); if (!s.empty()) type[i.id] = s + "_" + std::to_string(i.w[3]) + "x" + std::to_string(c.w[3]); } }
				if (i.op == 41 || i.op == 48) value[i.id] = { "true" }; if (i.op == 42 || i.op == 49) value[i.id] = { "false" }; if (i.op == 46) value[i.id] = { "null" };
				if ((i.op == 43 || i.op == 50) && def.count(i.type)) { value[i.id] = number(*def[i.type], i.w, 3); if (def[i.type]->op == 22 && def[i.type]->w[2] == 16) value[i.id].push_back("%" + std::to_string(i.id)); }
			}
		}
		Set id(uint32_t v, unsigned o) const
		{
			const std::string num = "%" + std::to_string(v);
			Set r; bool plain = true; if (o & OPERAND) { auto n = names.find(v); if (n != names.end()) { plain = false; for (auto& x : n->second) if (x.empty()) plain = true; else r.push_back("%" + x); } } if (!plain) return r;
			auto add = [&r](const Set& s) { r.insert(r.end(), s.begin(), s.end()); return r; };
			auto t = type.find(v); if (t != type.end() && o & TYPENAME) return add({ t->second }); auto c = value.find(v); if (c != value.end() && !c->second.empty() && o & CONST) return add(c->second); return add({ num });
		}
	};
	size_t stringWords(const Words& w, size_t p) { size_t n = 0; while (p + n < w.size()) { const uint32_t x = w[p + n++]; if (!(x >> 24) || !(x >> 16 & 255) || !(x >> 8 & 255) || !(x & 255)) break; } return n; }
	struct Expect
	{
		const Env& env; const Ins& i; unsigned o; Pieces out; bool ok = true;
		void sep(const Set& s) { Set r; for (auto& x : s) r.push_back(" " + x); out.push_back(r); }
		void enumerant(const spec::Kind& k, uint32_t v)
		{
			Set r; auto f = k.vals.find(v); if (f != k.vals.end()) { r = f->second.names; if (r[0] == "LongCompositesINTEL") r.push_back("LongConstantCompositeINTEL"); if (k.name == "Dim") for (size_t q = 0, e = r.size(); q < e; ++q) r.push_back("Dim" + r[q]); bool nw = true; for (auto& n : f->second.names) if (!spec::newer().count(k.name + "." + n)) nw = false; if (nw) r.push_back(std::to_string(v)); }
			else if (k.category == "BitEnum") { std::string s; for (uint32_t b = 1; b; b <<= 1) if (v & b) { auto g = k.vals.find(b); s += (s.empty() ? "" : "|") + (g == k.vals.end() ? std::to_string(b) : g->second.names[0]); } r = { s, std::to_string(v) }; }
			else r = { std::to_string(v) };
			if (!(o & OPERAND)) r.push_back(std::to_string(v)); sep(r);
		}
		void one(const std::string& kind, const Words& w, size_t& p)
		{
			if (p >= w.size()) { ok = false; return; } const spec::Kind& k = spec::g().kinds.at(kind);
			if (kind == "IdResult") { ++p; return; }
			if (kind == "LiteralString") { sep({ "\"" + Env::text(w, p) + "\"" }); p += stringWords(w, p); return; }
			if (kind == "LiteralContextDependentNumber")
			{
				auto t = env.def.find(i.type); Set v; if (t != env.def.end()) v = env.number(*t->second, w, p); std::string words; for (size_t q = p; q < w.size(); ++q) words += (q > p ? " " : "") + std::to_string(w[q]);
				if (o & CONST && !v.empty()) sep(v); else { v.push_back(words); sep(o & CONST ? v : Set{ words, v[0] }); } p = w.size(); return;
			}
			if (kind == "LiteralExtInstInteger")
			{
				auto s = env.sets.find(w[p - 1]); const uint32_t n = w[p++]; const int set = s == env.sets.end() ? 0 : s->second; const spec::Ext* e = nullptr; if (set) { auto f = spec::g().ext[set].find(n); if (f != spec::g().ext[set].end()) e = &f->second; }
				if (!e) { sep({ std::to_string(n) }); return; } sep(o & OPERAND ? Set{ e->name } : Set{ e->name, std::to_string(n) }); list(e->ops, w, p); return;
			}
			if (kind == "LiteralSpecConstantOpInteger")
			{
				const uint32_t n = w[p++]; auto f = spec::g().ins.find(n); if (f == spec::g().ins.end()) { ok = false; return; } sep({ std::to_string(n) }); out.push_back({ " [" }); if (o & OPNAME) out.push_back(f->second.names);
				std::vector<spec::Op> rest; for (auto& x : f->second.ops) if (x.kind != "IdResultType" && x.kind != "IdResult") rest.push_back(x);
				Set t = env.id(i.type, o); for (auto& x : t) x = " " + x; t.push_back(""); out.push_back(t); list(rest, w, p); out.push_back({ "]" }); return;
			}
			if (k.category == "Composite")
			{
				size_t wide = 1; if (i.op == 251) { auto t = env.typeOf.find(w[0]); if (t != env.typeOf.end()) { auto d = env.def.find(t->second); if (d != env.def.end() && d->second->op == 21 && d->second->w[2] > 32) wide = 2; } }
				while (p < w.size()) for (auto& b : k.bases)
				{
					if (p >= w.size()) { ok = false; return; }
					if (b == "LiteralInteger" && wide == 2) { if (p + 1 >= w.size()) { ok = false; return; } const uint64_t v = w[p] | uint64_t(w[p + 1]) << 32; sep({ std::to_string(w[p]) + " " + std::to_string(w[p + 1]), std::to_string(v), std::to_string(int64_t(v)) }); p += 2; } else one(b, w, p);
				}
				return;
			}
			if (k.category == "Id") { sep(env.id(w[p++], o)); return; }
			const uint32_t v = w[p++]; if (k.category != "ValueEnum" && k.category != "BitEnum") { sep({ std::to_string(v) }); return; }
			enumerant(k, v); auto params = [&](uint32_t x) { auto f = k.vals.find(x); if (f != k.vals.end()) list(f->second.params, w, p); };
			if (k.category == "BitEnum") { for (uint32_t b = 1; b; b <<= 1) if (v & b) params(b); } else params(v);
		}
		void list(const std::vector<spec::Op>& ops, const Words& w, size_t& p) { for (auto& x : ops) { if (p >= w.size()) { if (x.q == '1') ok = false; continue; } do one(x.kind, w, p); while (x.q == '*' && p < w.size()); } }
		Expect(const Env& e, const Ins& ins, unsigned opt, const std::string& indent) : env(e), i(ins), o(opt)
		{
			const spec::Ins& s = spec::g().ins.at(ins.op);
			if (ins.id) { auto n = env.names.find(ins.id); const std::string num = "%" + std::to_string(ins.id); Set r; if (o & INSTR && n != env.names.end()) for (auto& x : n->second) r.push_back(!x.empty() ? "%" + x : o & RESULT ? num : ""); else r.push_back(o & RESULT ? num : ""); out.push_back(r); }
			out.push_back({ indent }); if (o & OPNAME) out.push_back(s.names); const Words w(ins.w.begin() + 1, ins.w.end()); size_t p = 0; list(s.ops, w, p); if (p != w.size()) ok = false;
		}
	};
	bool match(const std::string& t, size_t at, const Pieces& p, size_t k, size_t* far)
	{
		if (k == p.size()) return at == t.size(); if (k > *far) *far = k; for (auto& a : p[k]) if (t.compare(at, a.size(), a) == 0 && match(t, at + a.size(), p, k + 1, far)) return true; return false;
	}
	std::string show(const Pieces& p) { std::string r; for (auto& s : p) { if (s.size() > 1) { r += "{"; for (size_t k = 0; k < s.size(); ++k) r += (k ? "," : "") + s[k]; r += "}"; } else if (!s.empty()) r += s[0]; } return r; }
	std::string visible(std::string s) { std::string r; for (char c : s) if (c == '\t') r += "\\t"; else if (c == '\n') r += "\\n"; else if (uint8_t(c) < 32) { char b[8]; snprintf(b, sizeof b, "\\x%02x", uint8_t(c)); r += b; } else r += c; return r; }

	std::string printOne(const Instruction& i, unsigned o, bool& ok, const char* indent, bool colors = false) { std::string s; auto f = [&s](const char* p) { s += p; }; auto pr = MP::ModuleSimpleFuncPrinter(f, colors); ok = MP::printInstruction(i, grammar(), pr, flags(o), indent); return s; }
	std::string printAll(const Module& m, unsigned o, bool& ok, const char* indent, bool colors = false) { std::string s; auto f = [&s](const char* p) { s += p; }; auto pr = MP::ModuleSimpleFuncPrinter(f, colors); ok = MP::printModule(m, grammar(), pr, flags(o), indent); return s; }
	std::string strip(const std::string& s) { std::string r; for (size_t k = 0; k < s.size(); ++k) { if (s[k] == 27 && k + 1 < s.size() && s[k + 1] == '[') { while (k < s.size() && s[k] != 'm') ++k; continue; } r += s[k]; } return r; }
	// class of an instruction for signatures
	std::string cls(const Ins& i, const Pieces& p, size_t far) { (void)p; (void)far; return spec::g().ins.at(i.op).names[0]; }
	void checkLine(const Env& env, const Ins& i, const std::string& t, unsigned o, const std::string& indent, const char* where)
	{
		Expect e(env, i, o, indent); if (!e.ok) { mc::outcome("operands not modelled"); return; } size_t far = 0;
		MC_CHECK(match(t, 0, e.out, 0, &far), ("text:" + cls(i, e.out, far)).c_str(), "%s, options %u: printed '%s', expected '%s'", where, o, visible(t).c_str(), visible(show(e.out)).c_str());
	}
	std::vector<const Instruction*> instructions(const Module& m) { std::vector<const Instruction*> r; m.iterateInstructions([&](const Instruction& i) { r.push_back(&i); return false; }); return r; }
	// the text of a whole module: preamble, then one line per instruction in binary order
	void checkModule(const Module& m, const Bin& b, const Env& env, unsigned o, const char* indent, bool colors, uint32_t generator = 0)
	{
		if (!generator) generator = b.generator; bool ok; std::string t = printAll(m, o, ok, indent, colors); MC_CHECK(ok, "printModule:fails", "printing a readable module with options %u reports failure: ...%s", o, visible(t.substr(t.size() > 200 ? t.size() - 200 : 0)).c_str()); if (colors) t = strip(t); size_t at = 0;
		if (o & PREAMBLE) { char h[200]; snprintf(h, sizeof h, "# SPIR-V Version %u.%u\n# Generator %u | %u\n# Bound %u\n# Schema %u\n\n", b.version >> 16 & 255, b.version >> 8 & 255, generator >> 16, generator & 0xffff, b.bound, b.schema); const std::string head = h; MC_CHECK(t.compare(0, head.size(), head) == 0, "preamble", "the preamble is '%s', expected '%s'", visible(t.substr(0, head.size())).c_str(), visible(head).c_str()); at = head.size(); }
		for (auto& i : b.ins)
		{
			// strings and names of the corpus contain no line breaks
			const size_t nl = t.find('\n', at); MC_CHECK(nl != std::string::npos, "printModule:lines", "the text ends before %s", spec::g().ins.at(i.op).names[0].c_str()); checkLine(env, i, t.substr(at, nl - at), o, indent ? indent : "", "module"); at = nl + 1;
		}
		MC_CHECK(at == t.size(), "printModule:lines", "the text has more than one line per instruction: '%s'", visible(t.substr(at, 200)).c_str());
	}
	void load(Module& m, const Words& w, bool& ok) { Reader r(w); ok = m.read(r, grammar()); if (!ok) return; const bool a = m.resolveIDs(), n = m.reconstructNames(), t = m.reconstructTypeAndConstantInfo(); if (mc::tracing()) mc::note("resolve %d names %d types %d", a, n, t); }
	bool printable(const Bin& b) { for (auto& i : b.ins) for (auto& o : i.ops) if (o.type == SPV_OPERAND_TYPE_LITERAL_STRING || o.type == SPV_OPERAND_TYPE_OPTIONAL_LITERAL_STRING) { const std::string s = Env::text(i.w, o.off); if (s.find('\n') != std::string::npos) return false; } return true; }
}

MC_SCENARIO(corpusLines, 1)
{
	using namespace corpus; auto& all = corpus::instructions(); const spec::Ins& ins = *all[mc::choose(unsigned(all.size()), "instruction")]; auto& vs = variants(ins, mc::thorough()); if (vs.empty()) { mc::outcome("no variants"); return; }
	const unsigned step = 20, chunk = mc::choose(unsigned((vs.size() + step - 1) / step)); mc::op("%s", ins.names[0].c_str());
	for (size_t k = chunk * step; k < std::min(vs.size(), size_t(chunk + 1) * step); ++k) for (int named = 0; named < 2; ++named)
	{
		Words mod = corpus::module(ins, vs[k]); if (ins.op == 6 && vs[k][1] == ~0u) continue; // no member number
		bool defined = false; { const Bin pre = parse(mod); for (auto& x : pre.ins) if (x.id == TEST) defined = true; }
		if (named) // names of ids in front of the other names
		{
			size_t p = 5; while (p < mod.size() && (mod[p] & 0xffff) != 5) p += mod[p] >> 16; const char* n[] = { "x", "ab", "", "a name with spaces", "%5", "\xc3\xa9\xe2\x82\xac", "12", "\"" }; int q = int(k); Words add;
			for (uint32_t id : { GLSL, VOID, INT, FLOAT, VEC4, STRUCT, PTR, VAR, CINT, CFLOAT, CUINT, CLONG, ENTRY, NEXT, VAL, HELPER, FILENAME, TEST }) if (id != TEST || defined) add = cat(add, corpus::op(5, cat({ id }, str(n[q++ % 8])))); mod.insert(mod.begin() + long(p), add.begin(), add.end());
		}
		const Bin orig = parse(mod); if (!orig.ok) continue; track::Allocator al; Log log; Module m(&al, &log); bool ok; load(m, mod, ok); if (!ok) { mc::outcome("not read"); continue; }
		Writer w; if (!m.write(w)) { mc::outcome("not written"); continue; } const Bin b = parse(w.words); if (!b.ok) { mc::outcome("written module not well-formed"); continue; } mc::state(hashWords(w.words)); if (mc::tracing()) mc::note("%s", disasm(w.words).c_str());
		const Env env(b); const auto list = instructions(m); if (list.size() != b.ins.size()) mc::broken("instructions and binary differ");
		for (size_t j = 0; j < list.size(); ++j)
		{
			if (b.ins[j].op != ins.op || (b.ins[j].w.size() != vs[k].size() + 1 && ins.op != 15)) continue;
			for (unsigned o = 0; o < 128; ++o) { if (!named && !(o & INSTR)) continue; if (!mc::thorough() && k % 8 && __builtin_popcount(o) > 1 && __builtin_popcount(o) < 6) continue; bool good; const std::string t = printOne(*list[j], o, good, "\t\t"); checkLine(env, b.ins[j], t, o, "\t\t", "instruction"); MC_CHECK(good, "printInstruction:fails", "options %u: printing '%s' reports failure", o, visible(t).c_str()); }
			bool good; MC_CHECK(strip(printOne(*list[j], ALL, good, " ", true)) == printOne(*list[j], ALL, good, " "), "colors", "colours change the text of %s", ins.names[0].c_str());
		}
		if (k % 10 == 0 || k + 1 == vs.size()) { if (!printable(b)) continue; checkModule(m, b, env, ALL, "\t\t", false, mod[2]); checkModule(m, b, env, ALL & ~(k % 128), "", true, mod[2]); }
		mc::checked(); mc::outcome("printed");
	}
}

MC_SCENARIO(moduleOptions, 3)
{
	// every option subset of a few modules, three indentations, with and without colours
	using namespace corpus; const unsigned which = mc::choose(3), o = mc::choose(128), ind = mc::choose(4), colors = mc::choose(2); const char* indents[] = { "\t\t", "    ", "", nullptr };
	Parts p = skeleton(); if (which) { p.names.push_back(corpus::op(5, cat({ VAR }, str("variable")))); p.names.push_back(corpus::op(5, cat({ CINT }, str("seven")))); p.names.push_back(corpus::op(5, cat({ NEXT }, str("next")))); p.names.push_back(corpus::op(5, cat({ FLOAT }, str("real")))); p.names.push_back(corpus::op(6, cat({ STRUCT, 0 }, str("member")))); }
	if (which == 2) { p.version = 0x00010300; p.generator = 0x00080007; p.bound = 0xfffffff0; p.strings.push_back(corpus::op(3, cat({ 2, 450, FILENAME }, str("void main() {}")))); p.processed.push_back(corpus::op(330, str("pass"))); p.functions.insert(p.functions.begin() + 3, corpus::op(12, { FLOAT, 70, GLSL, 26, CFLOAT, CFLOAT })); p.functions.insert(p.functions.begin() + 3, corpus::op(8, { FILENAME, 3, 4 })); }
	track::Allocator al; Log log; Module m(&al, &log); bool ok; load(m, p.words(), ok); if (!ok) mc::broken("module not read"); Writer w; if (!m.write(w)) mc::broken("module not written"); const Bin b = parse(w.words); const Env env(b); mc::state(hashWords(w.words));
	checkModule(m, b, env, o, indents[ind], colors, p.generator);
	// all kinds of printers deliver the same text
	bool r1; const std::string want = printAll(m, o, r1, indents[ind], colors); String buf(&al); MP::ModuleStringPrinter sp(buf, colors); MP::printModule(m, grammar(), sp, flags(o), indents[ind]);
	MC_CHECK(want == (buf.c_str() ? buf.c_str() : ""), "printers:string", "options %u: the string printer delivers another text", o);
	std::string s; const bool c = colors; auto f = [&s, c](const char* t, const char* push, const char* pop) { if (c && push) s += push; if (t) s += t; if (c && pop) s += pop; }; auto fc = [&](const Constant&, const char*, const char*) { return false; };
	{ auto fp = MP::ModuleFuncPrinter(f); MP::printModule(m, grammar(), fp, flags(o), indents[ind]); bool r2; const std::string plain = printAll(m, o & ~CONST, r2, indents[ind], colors); MC_CHECK(s == plain || s == want, "printers:function", "options %u: the function printer delivers another text", o); s.clear(); }
	{ auto fp = MP::ModuleFuncPrinter(f, fc); MP::printModule(m, grammar(), fp, flags(o), indents[ind]); bool r2; const std::string plain = printAll(m, o & ~CONST, r2, indents[ind], colors); MC_CHECK(s == plain, "printers:function", "options %u: the function printer delivers another text although it prints no constants", o); }
	mc::checked(); mc::outcome("printed");
}

MC_SCENARIO(constants, 1)
{
	// literals of every width, types by their name
	const unsigned t = mc::choose(13); struct T { unsigned op, w, s; }; const T ts[] = { { 21, 8, 0 }, { 21, 8, 1 }, { 21, 16, 0 }, { 21, 16, 1 }, { 21, 32, 0 }, { 21, 32, 1 }, { 21, 64, 0 }, { 21, 64, 1 }, { 22, 16, 0 }, { 22, 32, 0 }, { 22, 64, 0 }, { 20, 0, 0 }, { 21, 32, 0 } }; mc::op("type %u %u %u", ts[t].op, ts[t].w, ts[t].s);
	using namespace corpus; Parts p = skeleton(); uint32_t ty = 100; Words d = { ty }; const T& x = ts[t]; const bool isInt = x.op == 21; uint32_t id = 101;
	// the skeleton declares some of the types
	if (x.op == 20) ty = BOOL; else if (isInt && x.w == 32) ty = x.s ? INT : UINT; else if (isInt && x.w == 64 && x.s) ty = LONG; else if (!isInt && x.w == 32) ty = FLOAT; else if (!isInt && x.w == 64) ty = DOUBLE; else if (isInt && x.w == 8 && !x.s) ty = BYTE;
	if (ty == 100) p.types.push_back(isInt ? corpus::op(21, { ty, x.w, x.s }) : corpus::op(22, { ty, x.w }));
	for (uint32_t n : { 2u, 3u, 4u }) if (!(ty == FLOAT && n == 4)) p.types.push_back(corpus::op(23, { id++, ty, n })); if (!isInt && x.op == 22) for (uint32_t v = 101; v < 104 && v < id; ++v) for (uint32_t n : { 2u, 3u, 4u }) p.types.push_back(corpus::op(24, { id++, v, n }));
	std::vector<uint64_t> values = { 0, 1, 9, 10, 127, 128, 255, 256, 999999999, 1000000000, 2147483647, 2147483648u, 4294967295u, 0xffffffff80000000ull, 0xffffffffffffffffull, 0x8000000000000000ull, 0x7fffffffffffffffull, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x00000001, 0x3ff0000000000000ull, 0x7ff0000000000000ull, 0x0000000000000001ull, 0x7fefffffffffffffull, 0x7f7fffff, 0x3c00, 0x7bff, 0xfc00, 0x5bd7 };
	std::vector<uint32_t> cs; for (uint64_t v : values)
	{
		if (x.op == 20) { p.types.push_back(corpus::op(unsigned(41 + (v & 1)), { ty, id })); cs.push_back(id++); p.types.push_back(corpus::op(unsigned(48 + (v & 1)), { ty, id })); cs.push_back(id++); if (v > 1) break; continue; }
		Words w; if (x.w == 64) w = { uint32_t(v), uint32_t(v >> 32) }; else if (isInt && x.s && x.w < 32) w = { uint32_t(x.w == 8 ? int32_t(int8_t(v)) : int32_t(int16_t(v))) }; else if (x.w == 8) w = { uint32_t(v & 255) }; else if (x.w == 16) w = { uint32_t(v & 65535) }; else w = { uint32_t(v) };
		p.types.push_back(corpus::op(43, cat({ ty, id }, w))); cs.push_back(id++); p.types.push_back(corpus::op(50, cat({ ty, id }, w))); cs.push_back(id++);
	}
	p.types.push_back(corpus::op(46, { ty, id })); cs.push_back(id++); p.types.push_back(corpus::op(1, { ty, id++ }));
	if (isInt && x.w != 64) for (uint32_t c : cs) p.functions.insert(p.functions.begin() + 3, corpus::op(128, { ty, id++, c, c })); p.bound = id;
	track::Allocator al; Log log; Module m(&al, &log); bool ok; load(m, p.words(), ok); if (!ok) mc::broken("module not read: %s", log.last.c_str()); Writer w; if (!m.write(w)) mc::broken("module not written"); const Bin b = parse(w.words); if (!b.ok) mc::broken("module not well-formed: %s", b.error.c_str()); const Env env(b); mc::state(hashWords(w.words));
	for (unsigned o = 0; o < 128; ++o) checkModule(m, b, env, o, "\t", o & 1, p.generator); mc::checked(); mc::outcome("printed");
}

MC_SCENARIO(built, 3)
{
	// modules built by the library, as built, after writing, and as read
	auto& st = prog::steps(); const unsigned len = mc::bound(2, 3), n = unsigned(st.size()); std::vector<unsigned> seq; for (unsigned k = 0; k < len; ++k) { const unsigned x = mc::choose(n + 1); if (x == n) break; seq.push_back(x); mc::op("%s", st[x].name); }
	track::Allocator al; Log log;
	{
		Module m(&al, &log); prog::build(m, seq); Writer w; if (!m.finalizeAndWrite(w)) { mc::outcome("not written"); return; } const Bin b = parse(w.words); if (!b.ok) { mc::outcome("not well-formed"); if (mc::tracing()) mc::note("%s", b.error.c_str()); return; } const Env env(b); mc::state(hashWords(w.words)); if (mc::tracing()) mc::note("%s", disasm(w.words).c_str());
		checkModule(m, b, env, ALL, "\t\t", false); checkModule(m, b, env, ALL & ~(INSTR | CONST), "\t\t", false); checkModule(m, b, env, ALL & ~(OPERAND | TYPENAME), "\t\t", false);
		Module r(&al, &log); bool ok; load(r, w.words, ok); if (!ok) { mc::outcome("not read"); return; } Writer w2; if (!r.write(w2)) { mc::outcome("not written again"); return; } const Bin b2 = parse(w2.words); const Env env2(b2);
		checkModule(r, b2, env2, ALL, "\t\t", false); checkModule(r, b2, env2, OPNAME, "\t\t", true); mc::checked(); mc::outcome("printed");
	}
}

// many of one thing
#include "scale.h"
MC_SCENARIO(large, 2)
{
	track::Allocator al; Log log;
	{
		Module m(&al, &log); prog::Ctx c(m); prog::start(c); ++c.n; const scale::Pick p = scale::choose(mc::bound(3, 1)); p.shape->run(c, p.n); prog::finish(c); Writer w; if (!m.finalizeAndWrite(w)) { mc::outcome("not written"); return; } const Bin b = parse(w.words); if (!b.ok) { mc::outcome("not well-formed"); return; } const Env env(b); mc::state(mc::mix(p.index, p.n));
		checkModule(m, b, env, ALL, "\t\t", false); Module r(&al, &log); bool ok; load(r, w.words, ok); if (!ok) { mc::outcome("not read"); return; } Writer w2; if (!r.write(w2)) { mc::outcome("not written again"); return; } const Bin b2 = parse(w2.words); const Env env2(b2); checkModule(r, b2, env2, ALL, "\t\t", false); mc::checked(); mc::outcome("printed");
	}
}
