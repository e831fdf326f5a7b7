// C14: type and constant information is reconstructed faithfully from a binary.
#include "typebin.h"
#include "programs.h"
#include "corpus.h"
#include "spvgentwo/ModuleTemplate.inl"
#include <memory>
using namespace types;
using namespace ir;

namespace
{
	bool readable(const M& m)
	{
		switch (m.op) { case Op::OpTypeForwardPointer: return false; case Op::OpTypeRuntimeArray: case Op::OpTypeFunction: case Op::OpTypePointer: case Op::OpTypeVector: case Op::OpTypeMatrix: case Op::OpTypeArray: case Op::OpTypeSampledImage: case Op::OpTypeImage: if (m.sub.empty()) return false; break; case Op::OpTypePipe: if (m.aq == spv::AccessQualifier::Max) return false; break; default: break; } for (auto& s : m.sub) if (!readable(s)) return false; return true;
	}
	const std::vector<M>& domain()
	{
		static const std::vector<M> v = [] { std::vector<M> r; for (const M& m : catalog()) if (readable(m)) r.push_back(m); for (auto q : { spv::AccessQualifier::ReadOnly, spv::AccessQualifier::WriteOnly, spv::AccessQualifier::ReadWrite }) { M p = leaf(Op::OpTypePipe); p.aq = q; r.push_back(p); } return r; }(); return v;
	}
	bool aggregate(const M& m) { return m.op == Op::OpTypeStruct || m.op == Op::OpTypeArray || m.op == Op::OpTypeRuntimeArray; }
	struct Re
	{
		track::Allocator al, other; Log log; std::unique_ptr<Module> m; std::map<uint32_t, Instruction*> at;
		explicit Re() : m(new Module(&al, spv::AddressingModel::Logical, spv::MemoryModel::GLSL450, &log)) {}
		~Re() { m.reset(); }
		bool parts(const Words& w, unsigned how)
		{
			Reader r(w); bool ok = how == 0 ? m->readAndInit(r, grammar()) : m->read(r, grammar()) && m->resolveIDs() && m->reconstructTypeAndConstantInfo(how == 2 ? &other : nullptr); if (how == 3) ok = m->reconstructTypeAndConstantInfo() && ok;
			at.clear(); m->iterateInstructions([&](Instruction& i) { if (i.hasResult()) at[uint32_t(i.getResultId())] = &i; }); return ok;
		}
		void read(const Words& w, unsigned how) { if (!parts(w, how)) mc::fail("read", "the module cannot be reconstructed: %s%s", log.last.c_str(), trace(w).c_str()); MC_CHECK(log.errors == 0, "error", "'%s' while reconstructing%s", log.last.c_str(), trace(w).c_str()); }
		Instruction* ins(uint32_t id) { auto it = at.find(id); MC_CHECK(it != at.end(), "lost", "instruction %%%u is lost", id); return it == at.end() ? nullptr : it->second; }
		Instruction* ask(const M& t) { Type q(&al); plain(q, t); return m->addType(q); }
		Instruction* ask(const K& k) { Constant c(&al); plain(c, k); return m->addConstant(c); }
		unsigned count() { unsigned n = 0; for (Instruction& i : m->getTypesAndConstants()) { (void)i; ++n; } return n; }
		void typed(uint32_t id, const M& t)
		{
			Instruction* in = ins(id); if (!in) return; const Type* a = m->getTypeInfo(in); MC_CHECK(a != nullptr, "no-type-info", "no description of %s", show(t).c_str()); std::string d = differs(*a, t); MC_CHECK(d.empty(), "type-info", "the description's %s is wrong: %s", d.c_str(), show(t).c_str()); const Type* b = in->getType(); MC_CHECK(b && differs(*b, t).empty(), "instr-type", "the instruction's type is wrong: %s", show(t).c_str());
			Type q(&al); plain(q, t); Instruction* f = m->getTypeInstr(q); const Type* ft = f ? m->getTypeInfo(f) : nullptr; MC_CHECK(f && ft && differs(*ft, t).empty(), "type-instr", "no instruction, or another, is found for %s", show(t).c_str());
		}
		void valued(uint32_t id, const K& k)
		{
			Instruction* in = ins(id); if (!in) return; const Constant* c = m->getConstantInfo(in); MC_CHECK(c != nullptr, "no-constant-info", "no description of %s", show(k).c_str()); std::string d = differs(*c, k); MC_CHECK(d.empty(), "constant-info", "the description's %s is wrong: %s", d.c_str(), show(k).c_str()); MC_CHECK(in->getConstant() == c, "constant-info", "the instruction reports another constant: %s", show(k).c_str()); const Type* t = in->getType(); MC_CHECK(t && differs(*t, k.type).empty(), "constant-type", "the constant's type is wrong: %s", show(k).c_str());
		}
		void reused(const Enc& e)
		{
			const unsigned n = count(); for (auto& [id, t] : e.types) { Instruction* a = ask(t); const uint32_t first = e.ids.at("T" + show(t)); MC_CHECK(a == ins(first) || (a && a == ins(id)), "not-reused", "requesting %s does not give the instruction of the binary", show(t).c_str()); } for (auto& [id, k] : e.cons) if (spv::IsConstantOp(k.op)) { Instruction* a = ask(k); MC_CHECK(a == ins(e.ids.at("K" + show(k))) || (a && a == ins(id)), "not-reused", "requesting %s does not give the instruction of the binary", show(k).c_str()); }
			MC_CHECK(count() == n, "grows", "%u instructions instead of %u after requesting what the binary has", count(), n); MC_CHECK(log.errors == 0, "error", "'%s' while requesting what the binary has", log.last.c_str());
		}
		void all(const Enc& e) { for (auto& [id, t] : e.types) typed(id, t); for (auto& [id, k] : e.cons) valued(id, k); }
	};
	// undefined values and variables of the given types
	Words values(Enc& e, std::vector<std::pair<uint32_t, M>>& out)
	{
		Words o; for (size_t i = 0, n = e.types.size(); i < n; ++i) { auto [id, m] = e.types[i]; if (m.op == Op::OpTypeVoid || m.op == Op::OpTypeFunction) continue; const uint32_t v = e.next++; if (m.op == Op::OpTypePointer && m.sc != SC::Function && v % 2) Enc::put(o, 59, { id, v, unsigned(m.sc) }); else Enc::put(o, 1, { id, v }); out.push_back({ v, m }); } return o;
	}
	void each(Enc& e, unsigned how) { std::vector<std::pair<uint32_t, M>> v; const Words tail = values(e, v), w = e.module(tail); Re r; r.read(w, how); r.all(e); for (auto& [id, m] : v) { Instruction* in = r.ins(id); const Type* t = in ? in->getType() : nullptr; MC_CHECK(t && differs(*t, m).empty(), "value-type", "a value of type %s reports another type", show(m).c_str()); } Writer x; MC_CHECK(r.m->write(x) && x.words.size() == w.size(), "write", "reconstructing changes the module"); r.reused(e); r.all(e); if (how == 2) { r.m.reset(); r.other.expectEmpty("after destruction"); } }
}
MC_SCENARIO(one_type, 1) { const auto& d = domain(); const unsigned i = mc::choose(d.size(), "type"), copies = mc::choose(aggregate(d[i]) ? 2 : 1, "copies"), how = mc::choose(4, "how"); mc::op("%s, %u more, read in manner %u", show(d[i]).c_str(), copies, how); Enc e; e.type(d[i]); if (copies) e.type(d[i], true); each(e, how); mc::state(mc::mix(mc::mix(i, copies), how)); mc::outcome("reconstructed"); }
MC_SCENARIO(all_types, 1) { const auto& d = domain(); const unsigned f = mc::choose(d.size(), "first"); const unsigned how = mc::thorough() ? mc::choose(4, "how") : f % 4; mc::op("from %s", show(d[f]).c_str()); Enc e; for (size_t k = 0; k < d.size(); ++k) e.type(d[(f + k) % d.size()]); if (f % 2) for (size_t k = 0; k < d.size(); ++k) if (aggregate(d[k])) e.type(d[k], true); each(e, how); mc::state(mc::mix(f, how)); mc::outcome("reconstructed"); }
MC_SCENARIO(all_shapes, 1) { static const auto l = [] { std::vector<M> v; shapes(6, v); return v; }(); const unsigned stride = mc::bound(8, 64), f = mc::choose(stride, "first"); Enc e; for (size_t k = 0; k < l.size(); ++k) e.type(l[(k + f * (l.size() / stride)) % l.size()]); each(e, f % 4); mc::state(f); mc::outcome("reconstructed"); }
// a binary with one type, asked for another
MC_SCENARIO(other_type, 1)
{
	const auto& d = domain(); const unsigned i = mc::choose(d.size(), "in the binary"); Enc e; e.type(d[i]); const Words w = e.module(); mc::op("binary with %s", show(d[i]).c_str()); const unsigned step = mc::thorough() ? 1 : 7;
	Re r; r.read(w, i % 4); std::map<Instruction*, std::string> owner; for (auto& [id, t] : e.types) owner[r.ins(id)] = "T" + show(t); for (auto& [id, k] : e.cons) owner[r.ins(id)] = "K" + show(k);
	for (unsigned k = i % step; k < d.size(); k += step) { Instruction* a = r.ask(d[k]); MC_CHECK(a && r.log.errors == 0, "error", "'%s' while requesting %s", r.log.last.c_str(), show(d[k]).c_str()); const Type* t = r.m->getTypeInfo(a); MC_CHECK(t && differs(*t, d[k]).empty(), "conflated", "requesting %s gives another type", show(d[k]).c_str()); auto o = owner.emplace(a, "T" + show(d[k])); MC_CHECK(o.first->second == "T" + show(d[k]), "conflated", "requesting %s gives %s", show(d[k]).c_str(), o.first->second.c_str()); }
	Writer x; MC_CHECK(r.m->finalizeAndWrite(x), "write", "the module cannot be written: %s", r.log.last.c_str()); const Bin b = parse(x.words); MC_CHECK(b.ok, "parse", "%s", b.error.c_str()); const Table t = decode(b); MC_CHECK(t.error.empty(), "order", "%s", t.error.c_str()); std::set<std::string> seen; for (auto& [id, m] : t.type) MC_CHECK(seen.insert(show(m)).second, "duplicate", "%s is declared twice", show(m).c_str()); mc::state(i); mc::outcome("distinct");
}
MC_SCENARIO(one_constant, 2) { static const std::vector<K> d = [] { std::vector<K> r = constants(); for (auto& k : specs()) r.push_back(k); return r; }(); const unsigned i = mc::choose(d.size(), "constant"), how = mc::choose(4, "how"), copies = mc::choose(3, "copies"); mc::op("%s, %u more, read in manner %u", show(d[i]).c_str(), copies, how); Enc e; e.con(d[i]); for (unsigned c = 0; c < copies; ++c) e.con(d[i], true); each(e, how); mc::state(mc::mix(mc::mix(i, how), copies)); mc::outcome("reconstructed"); }
MC_SCENARIO(all_constants, 1) { static const std::vector<K> d = [] { std::vector<K> r = constants(); for (auto& k : specs()) r.push_back(k); return r; }(); const unsigned f = mc::choose(d.size(), "first"); mc::op("from %s", show(d[f]).c_str()); Enc e; for (size_t k = 0; k < d.size(); ++k) e.con(d[(f + k) % d.size()]); if (f % 2) for (auto& k : d) e.con(k, true); each(e, f % 4); mc::state(f); mc::outcome("reconstructed"); }
// what the C++ interface makes of a value is what reading the value back gives
MC_SCENARIO(cxx_values, 2)
{
	struct E { const char* name; Instruction*(*f)(Module&); }; static const E l[] = {
#define X(...) { #__VA_ARGS__, [](Module& m) -> Instruction* { return m.__VA_ARGS__; } },
		X(constant(true)) X(constant(false)) X(constant(1)) X(constant(-1)) X(constant(1u)) X(constant(1.5f)) X(constant(2.5)) X(constant(0x123456789ll)) X(constant(~0ull)) X(constant(short(-2))) X(constant((unsigned char)200)) X(constant(char(-3))) X(constant(make_vector(1.f, 2.f))) X(constant(make_vector(true, false, true))) X(constant(make_array(1, 2, 3))) X(constant(make_matrix(make_vector(1.f, 2.f), make_vector(3.f, 4.f), make_vector(5.f, 6.f)))) X(constant(const_null_t<vector_t<float, 2>>{})) X(constant(const_sampler_t{ spv::SamplerAddressingMode::Repeat, ConstantSamplerCoordMode::Normalized, spv::SamplerFilterMode::Linear }))
		X(constant(make_array(make_vector(1.0, 2.0), make_vector(3.0, 4.0)))) X(specConstant(true)) X(specConstant(false)) X(specConstant(7)) X(specConstant(make_vector(1u, 2u)))
#undef X
	};
	constexpr unsigned n = sizeof l / sizeof *l; const unsigned a = mc::choose(n, "value"), b = mc::choose(n, "then"); mc::op("%s then %s", l[a].name, l[b].name); Writer x; { Re s; l[a].f(*s.m); l[b].f(*s.m); MC_CHECK(s.m->finalizeAndWrite(x) && s.log.errors == 0, "write", "%s", s.log.last.c_str()); }
	Re r; r.read(x.words, (a + b) % 4); const unsigned before = r.count(); const bool sa = strstr(l[a].name, "spec") == l[a].name, sb = strstr(l[b].name, "spec") == l[b].name; Instruction* ia = l[a].f(*r.m); Instruction* ib = l[b].f(*r.m); MC_CHECK(ia && ib && r.log.errors == 0, "error", "'%s'", r.log.last.c_str()); if (!sa && !sb) MC_CHECK(r.count() == before, "grows", "requesting %s and %s again adds instructions to the module that has them", l[a].name, l[b].name); MC_CHECK((ia == ib) == (a == b && !sa), "conflated", "%s and %s", l[a].name, l[b].name); mc::state(mc::mix(a, b)); mc::outcome("reused");
}
namespace
{
	// what is known of every instruction with a result, by its id
	struct Known { std::string type, con; };
	std::string str(const Type* t) { if (!t) return "none"; std::string s = std::to_string(unsigned(t->getType())) + "/" + std::to_string(t->getIntWidth()) + (t->getIntSign() ? "s" : "") + "@" + std::to_string(unsigned(t->getStorageClass())) + "," + std::to_string(unsigned(t->getImageDimension())) + "," + std::to_string(unsigned(t->getImageFormat())) + "," + std::to_string(unsigned(t->getAccessQualifier())) + "," + std::to_string(unsigned(t->getImageSamplerAccess())) + (t->getImageArray() ? "A" : "") + (t->getImageMultiSampled() ? "M" : "") + "("; for (const Type& c : *t) s += str(&c) + " "; return s + ")"; }
	std::string str(const Constant* c) { if (!c) return "none"; std::string s = std::to_string(unsigned(c->getOperation())) + ":" + str(&c->getType()) + "="; for (unsigned d : c->getData()) s += std::to_string(d) + "."; for (const Constant& k : c->getComponents()) s += "{" + str(&k) + "}"; return s; }
	std::map<uint32_t, Known> known(Module& m) { std::map<uint32_t, Known> k; m.iterateInstructions([&](Instruction& i) { if (!i.hasResult()) return; Known& e = k[uint32_t(i.getResultId())]; e.type = str(i.getType()); e.con = i.isSpecOrConstant() && i.getOperation() != Op::OpSpecConstantOp ? str(i.getConstant()) : "-"; }); return k; }
	template <class F> void sameAfterReading(F&& build, unsigned how)
	{
		Re s; build(*s.m); Writer x; MC_CHECK(s.m->finalizeAndWrite(x), "write", "%s", s.log.last.c_str()); const auto want = known(*s.m); Re r; r.read(x.words, how); const auto got = known(*r.m); MC_CHECK(want.size() == got.size(), "lost", "%zu results instead of %zu", got.size(), want.size());
		for (auto& [id, k] : want) { auto it = got.find(id); MC_CHECK(it != got.end(), "lost", "%%%u is lost", id); if (it == got.end()) return; MC_CHECK(it->second.type == k.type, "value-type", "the type of %%%u was %s and is %s%s", id, k.type.c_str(), it->second.type.c_str(), trace(x.words).c_str()); MC_CHECK(it->second.con == k.con, "constant-info", "the constant %%%u was %s and is %s%s", id, k.con.c_str(), it->second.con.c_str(), trace(x.words).c_str()); }
		auto fun = [](Module& m) { std::map<uint32_t, std::string> v; auto add = [&](Function& f) { std::string o = str(&f.getFunctionType()) + " " + str(&f.getReturnType()) + " in " + (f.getFunctionTypeInstr() ? std::to_string(uint32_t(f.getFunctionTypeInstr()->getResultId())) : "none") + " returns " + (f.getReturnTypeInstr() ? std::to_string(uint32_t(f.getReturnTypeInstr()->getResultId())) : "none"); v[uint32_t(f.getFunction()->getResultId())] = o; }; for (Function& f : m.getFunctions()) add(f); for (EntryPoint& f : m.getEntryPoints()) add(f); return v; };
		const auto fa = fun(*s.m), fb = fun(*r.m); MC_CHECK(fa == fb, "function-type", "functions report other types than before%s", trace(x.words).c_str());
		// everything asked for again
		const unsigned n = r.count(); for (Instruction& i : s.m->getTypesAndConstants()) { Instruction* o = r.ins(uint32_t(i.getResultId())); if (const Type* t = s.m->getTypeInfo(&i)) MC_CHECK(r.m->addType(*t) == o, "not-reused", "requesting %s does not give the instruction of the binary", str(t).c_str()); else if (spv::IsConstantOp(i.getOperation())) { const Constant* c = i.getConstant(); MC_CHECK(c && r.m->addConstant(*c) == o, "not-reused", "requesting %s does not give the instruction of the binary", str(c).c_str()); } } MC_CHECK(r.count() == n, "grows", "%u instructions instead of %u after requesting what the binary has", r.count(), n);
	}
}
namespace { void sameProgram(const std::vector<unsigned>& seq, unsigned how) { sameAfterReading([&](Module& m) { prog::build(m, seq); }, how); } }
MC_SCENARIO(programs, 1) { const unsigned p = mc::choose(prog::steps().size(), "step"), how = mc::choose(4, "how"); mc::op("%s", prog::steps()[p].name); sameProgram({ p }, how); mc::state(mc::mix(p, how)); mc::outcome("same"); }
MC_SCENARIO(program_pairs, 2) { const auto& c = prog::core(); const unsigned d = mc::bound(2, 3); std::vector<unsigned> seq; uint64_t h = 0; for (unsigned i = 0; i < d; ++i) { const unsigned k = mc::choose(c.size(), "step"); seq.push_back(c[k]); h = mc::mix(h, k); mc::op("%s", prog::steps()[c[k]].name); } sameProgram(seq, h % 4); mc::state(h); mc::outcome("same"); }
// requests after reading a binary, interleaved with writing and reading again
MC_SCENARIO(histories, 2)
{
	struct Ask { bool isType; M m; K k; }; static const std::vector<Ask> menu = [] { std::vector<Ask> r; const M F32 = leaf(Op::OpTypeFloat, 32), U32 = leaf(Op::OpTypeInt, 32), B = leaf(Op::OpTypeBool), s1 = strct({ F32 }), s2 = strct({ s1, F32 }), a2 = wrap(Op::OpTypeArray, F32, 2), v2 = wrap(Op::OpTypeVector, F32, 2); for (const M& m : { F32, B, v2, a2, wrap(Op::OpTypeArray, a2, 2), s1, s2, ptr(SC::Function, s2), ptr(SC::Uniform, s2) }) r.push_back({ true, m, {} }); K two; two.op = Op::OpConstant; two.type = U32; two.data = { 2 }; K f1 = two; f1.type = F32; K t; t.op = Op::OpConstantTrue; t.type = B; t.data = { 1 }; K c; c.op = Op::OpConstantComposite; c.type = v2; c.sub = { f1, f1 }; K spec = two; spec.op = Op::OpSpecConstant; for (const K& k : { two, t, c, spec }) r.push_back({ false, {}, k }); return r; }();
	const unsigned a = mc::choose(menu.size() + 1, "in the binary"), depth = mc::bound(3, 4); std::unique_ptr<Re> r(new Re()); Enc e; if (a < menu.size()) { if (menu[a].isType) { e.type(menu[a].m); if (aggregate(menu[a].m)) e.type(menu[a].m, true); } else e.con(menu[a].k); } mc::op("binary with %s", a == menu.size() ? "nothing" : menu[a].isType ? show(menu[a].m).c_str() : show(menu[a].k).c_str()); r->read(e.module(), a % 4); uint64_t h = a;
	// what the module has to declare: structures may be in the binary twice, specialisation constants any number of times
	std::map<std::string, unsigned> has; auto typeIn = [&](auto&& self, const M& m) -> void { if (has.count("T" + show(m))) return; for (auto& s : m.sub) self(self, s); if (m.op == Op::OpTypeArray) { const M u = leaf(Op::OpTypeInt, 32); self(self, u); K k; k.op = Op::OpConstant; k.type = u; k.data = { m.w }; has.emplace("K" + show(k), 1); } has["T" + show(m)] = 1; }; auto conIn = [&](auto&& self, const K& k) -> void { const bool spec = spv::IsSpecConstantOp(k.op); if (!spec && has.count("K" + show(k))) return; typeIn(typeIn, k.type); for (auto& s : k.sub) self(self, s); ++has["K" + show(k)]; }; for (auto& [id, t] : e.types) { (void)id; ++has["T" + show(t)]; } for (auto& [id, k] : e.cons) { (void)id; ++has["K" + show(k)]; }
	for (unsigned s = 0; s < depth; ++s)
	{
		const unsigned k = mc::choose(menu.size() + 2, "request"); h = mc::mix(h, k);
		if (k < menu.size()) { const Ask& q = menu[k]; const std::string what = q.isType ? show(q.m) : show(q.k); mc::op("request %s", what.c_str()); if (q.isType) { Instruction* in = r->ask(q.m); typeIn(typeIn, q.m); const Type* t = in ? in->getType() : nullptr; MC_CHECK(t && differs(*t, q.m).empty(), "type-info", "%s", what.c_str()); } else { Instruction* in = r->ask(q.k); conIn(conIn, q.k); const Constant* c = in ? in->getConstant() : nullptr; MC_CHECK(c && differs(*c, q.k).empty(), "constant-info", "%s", what.c_str()); } }
		else if (k == menu.size()) { mc::op("write and read"); Writer x; MC_CHECK(r->m->finalizeAndWrite(x), "write", "%s", r->log.last.c_str()); r.reset(new Re()); r->read(x.words, h % 4); }
		else { mc::op("reconstruct again"); MC_CHECK(r->m->reconstructTypeAndConstantInfo(), "again", "reconstructing again fails: %s", r->log.last.c_str()); }
		unsigned n = 0; for (auto& [key, c] : has) { (void)key; n += c; } MC_CHECK(r->log.errors == 0, "error", "'%s'", r->log.last.c_str()); MC_CHECK(r->count() == n, r->count() > n ? "grows" : "shrinks", "%u types and constants instead of %u", r->count(), n);
	}
	Writer x; MC_CHECK(r->m->finalizeAndWrite(x), "write", "%s", r->log.last.c_str()); const Bin b = parse(x.words); MC_CHECK(b.ok, "parse", "%s", b.error.c_str()); const Table t = decode(b); MC_CHECK(t.error.empty(), "order", "%s", t.error.c_str()); std::map<std::string, unsigned> got; for (auto& [id, m] : t.type) ++got["T" + show(m)]; for (auto& [id, k] : t.con) ++got["K" + show(k)]; MC_CHECK(got == has, "content", "the module declares something else than it was asked for%s", trace(x.words).c_str()); mc::state(h); mc::outcome("history");
}

// constants that can be specialised and what is made of them; what cannot be described
MC_SCENARIO(special, 2)
{
	using namespace corpus; using Op = spv::Op; enum What { Read, Fails }; struct Case { const char* name; What what; std::function<void(Parts&)> f; std::function<void(Re&)> check; };
	auto is = [](uint32_t id, M t) { return [id, t](Re& r) { Instruction* in = r.ins(id); const Type* a = in ? in->getType() : nullptr; MC_CHECK(a && differs(*a, t).empty(), "value-type", "%%%u reports the type %s instead of %s", id, str(a).c_str(), show(t).c_str()); }; };
	const M I32 = leaf(Op::OpTypeInt, 32, true), F32 = leaf(Op::OpTypeFloat, 32), V4 = wrap(Op::OpTypeVector, F32, 4);
	static const std::vector<Case> cases = {
		{ "spec operation", Read, [](Parts& p) { p.types.push_back(op(50, { INT, 97, 5 })); p.types.push_back(op(52, { INT, 99, 128, 97, CINT })); }, [=](Re& r) { is(99, I32)(r); const Constant* c = r.ins(99)->getConstant(); MC_CHECK(c && c->getOperation() == Op::OpSpecConstantOp && c->getComponents().size() == 2, "constant-info", "the operation is not described"); } },
		{ "spec operation with literals", Read, [](Parts& p) { p.types.push_back(op(51, { VEC4, 98, CFLOAT, CFLOAT, CFLOAT, CFLOAT })); p.types.push_back(op(52, { FLOAT, 99, 81, 98, 2 })); p.types.push_back(op(52, { VEC4, 100, 79, 98, 98, 0, 1, 6, 7 })); }, [=](Re& r) { is(99, F32)(r); is(100, V4)(r); } },
		{ "composite of spec operations", Read, [](Parts& p) { p.types.push_back(op(50, { FLOAT, 97, 5 })); p.types.push_back(op(52, { FLOAT, 99, 129, 97, CFLOAT })); p.types.push_back(op(51, { VEC4, 100, 99, 99, 97, CFLOAT })); }, [=](Re& r) { is(100, V4)(r); const Constant* c = r.ins(100)->getConstant(); MC_CHECK(c && c->getComponents().size() == 4, "constant-info", "the composite is not described"); } },
		{ "equal spec operations", Read, [](Parts& p) { p.types.push_back(op(50, { INT, 97, 5 })); p.types.push_back(op(50, { INT, 96, 5 })); p.types.push_back(op(52, { INT, 99, 128, 97, CINT })); p.types.push_back(op(52, { INT, 100, 128, 96, CINT })); }, [=](Re& r) { is(99, I32)(r); is(100, I32)(r); MC_CHECK(r.ins(99)->getConstant() && r.ins(100)->getConstant(), "constant-info", "one of two equal operations is not described"); } },
		{ "array of spec constant length", Read, [](Parts& p) { p.types.push_back(op(50, { UINT, 97, 5 })); p.types.push_back(op(28, { 98, FLOAT, 97 })); p.types.push_back(op(32, { 99, 6, 98 })); }, [=](Re& r) { is(98, wrap(Op::OpTypeArray, F32, 5))(r); is(99, ptr(SC::Private, wrap(Op::OpTypeArray, F32, 5)))(r); Instruction* a = r.ask(wrap(Op::OpTypeArray, F32, 5)); MC_CHECK(a != r.ins(98), "spec-length", "an array type of fixed length is requested and that of specialisable length is given"); } },
		{ "arrays of fixed and of spec constant length", Read, [](Parts& p) { p.types.push_back(op(43, { UINT, 96, 5 })); p.types.push_back(op(28, { 95, FLOAT, 96 })); p.types.push_back(op(50, { UINT, 97, 5 })); p.types.push_back(op(28, { 98, FLOAT, 97 })); }, [=](Re& r) { is(98, wrap(Op::OpTypeArray, F32, 5))(r); is(95, wrap(Op::OpTypeArray, F32, 5))(r); MC_CHECK(r.ask(wrap(Op::OpTypeArray, F32, 5)) == r.ins(95), "not-reused", "the array type of the binary is not used"); } },
		{ "array of spec operation length", Fails, [](Parts& p) { p.types.push_back(op(50, { UINT, 97, 5 })); p.types.push_back(op(52, { UINT, 99, 128, 97, 97 })); p.types.push_back(op(28, { 98, FLOAT, 99 })); }, [=](Re& r) { const Type* t = r.ins(98)->getType(); MC_CHECK(!t || t->getArrayLength() != 128, "type-info", "the opcode of the operation is the array's length"); } },
		{ "array of signed length", Read, [](Parts& p) { p.types.push_back(op(43, { INT, 97, 5 })); p.types.push_back(op(28, { 98, FLOAT, 97 })); }, is(98, wrap(Op::OpTypeArray, F32, 5)) },
		{ "array of 64 bit length", Read, [](Parts& p) { p.types.push_back(op(21, { 90, 64, 0 })); p.types.push_back(op(43, { 90, 97, 5, 0 })); p.types.push_back(op(28, { 98, FLOAT, 97 })); }, is(98, wrap(Op::OpTypeArray, F32, 5)) },
		{ "array of array length types", Read, [](Parts& p) { p.types.push_back(op(43, { INT, 97, 5 })); p.types.push_back(op(43, { UINT, 96, 5 })); p.types.push_back(op(28, { 98, FLOAT, 97 })); p.types.push_back(op(28, { 99, 98, 96 })); }, is(99, wrap(Op::OpTypeArray, wrap(Op::OpTypeArray, F32, 5), 5)) },
		{ "repeated constants", Read, [](Parts& p) { for (uint32_t i : { 95, 96, 97 }) p.types.push_back(op(43, { INT, i, 5 })); p.types.push_back(op(43, { INT, 98, 6 })); }, [=](Re& r) { for (uint32_t i : { 95, 96, 97 }) { is(i, I32)(r); const Constant* c = r.ins(i)->getConstant(); MC_CHECK(c && c->getData().size() == 1 && c->getData()[0] == 5, "constant-info", "%%%u", i); } K k; k.op = Op::OpConstant; k.type = I32; k.data = { 6 }; MC_CHECK(r.ask(k) == r.ins(98), "not-reused", "the constant of the binary is not used"); } },
		{ "null composite constituents", Read, [](Parts& p) { p.types.push_back(op(46, { FLOAT, 97 })); p.types.push_back(op(44, { VEC4, 98, 97, 97, CFLOAT, 97 })); p.types.push_back(op(46, { VEC4, 99 })); }, [=](Re& r) { is(98, V4)(r); is(99, V4)(r); } },
		{ "recursive pointer", Fails, [](Parts& p) { p.types.push_back(op(39, { 77, 7 })); p.types.push_back(op(30, { 78, INT, 77 })); p.types.push_back(op(32, { 77, 7, 78 })); }, [](Re&) {} },
		{ "opaque type", Fails, [](Parts& p) { p.types.push_back(op(31, cat({ 77 }, corpus::str("opaque")))); p.types.push_back(op(32, { 78, 7, 77 })); }, [](Re&) {} },
		{ "constant of an undefined value", Fails, [](Parts& p) { p.types.push_back(op(1, { FLOAT, 93 })); p.types.push_back(op(44, { VEC4, 94, 93, 93, 93, 93 })); }, [](Re&) {} },
		{ "missing member", Fails, [](Parts& p) { p.types.push_back(op(30, { 78, INT, 79 })); }, [](Re&) {} },
		{ "constant of a type that is none", Fails, [](Parts& p) { p.types.push_back(op(43, { CINT, 78, 1 })); }, [](Re&) {} },
		{ "array length that is none", Fails, [](Parts& p) { p.types.push_back(op(28, { 78, INT, CFLOAT })); }, [](Re&) {} },
		{ "array length that is a type", Fails, [](Parts& p) { p.types.push_back(op(28, { 78, INT, UINT })); }, [](Re&) {} },
		{ "member that is a constant", Fails, [](Parts& p) { p.types.push_back(op(30, { 78, INT, CINT })); }, [](Re&) {} },
		{ "constituent that is a type", Fails, [](Parts& p) { p.types.push_back(op(44, { VEC4, 94, CFLOAT, FLOAT, CFLOAT, CFLOAT })); }, [](Re&) {} },
	};
	const unsigned i = mc::choose(cases.size(), "case"), how = mc::choose(4, "how"); const Case& c = cases[i]; mc::op("%s", c.name); Parts p = skeleton(); p.bound = 120; c.f(p); const Words w = p.words(); Re r; const bool ok = r.parts(w, how);
	if (c.what == Read) { MC_CHECK(ok && r.log.errors == 0, "read", "a module with %s cannot be reconstructed: %s", c.name, r.log.last.c_str()); const Words& base = w; const Bin b = parse(base); for (auto& x : b.ins) if (x.id && x.type) { Instruction* v = r.ins(x.id); MC_CHECK(v && v->getType(), "value-type", "%%%u has no type (%s)", x.id, c.name); } } else { MC_CHECK(!ok, "accepts", "reconstructing succeeds with %s", c.name); MC_CHECK(r.log.errors > 0, "silent", "no error is reported for %s", c.name); }
	if (c.what == Fails && strstr(c.name, "that is")) r.m->reset(); else c.check(r); mc::state(mc::mix(i, how)); mc::outcome(ok ? "read" : "failure reported");
}

// many of one thing
#include "scale.h"
MC_SCENARIO(large, 2)
{
	const scale::Pick p = scale::choose(); mc::state(mc::mix(p.index, p.n)); sameAfterReading([&](Module& m) { prog::Ctx c(m); prog::start(c); ++c.n; p.shape->run(c, p.n); prog::finish(c); }, p.n % 4); mc::outcome("same");
}
