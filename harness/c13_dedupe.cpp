// C13: types and constants are unique, distinct when different, and defined before use.
#include "typebin.h"
#include "spvgentwo/ModuleTemplate.inl"
#include <memory>
#include <unordered_map>
using namespace types;
using namespace ir;

namespace
{
	struct Ask { bool isType; M m; K k; };
	std::string show(const Ask& a) { return a.isType ? types::show(a.m) : types::show(a.k); }
	bool encodable(const M& m, bool top = true)
	{
		switch (m.op) { case Op::OpTypeRuntimeArray: case Op::OpTypeFunction: case Op::OpTypePointer: case Op::OpTypeVector: case Op::OpTypeMatrix: case Op::OpTypeArray: case Op::OpTypeSampledImage: case Op::OpTypeImage: if (m.sub.empty()) return false; break; case Op::OpTypeForwardPointer: if (!top || m.sub.empty()) return false; break; case Op::OpTypePipe: if (m.aq == spv::AccessQualifier::Max) return false; break; default: break; } for (auto& s : m.sub) if (!encodable(s, false)) return false; return true;
	}
	const std::vector<M>& domain()
	{
		static const std::vector<M> v = [] { std::vector<M> r; for (const M& m : catalog()) if (encodable(m)) r.push_back(m); for (auto q : { spv::AccessQualifier::ReadOnly, spv::AccessQualifier::WriteOnly, spv::AccessQualifier::ReadWrite }) { M p = leaf(Op::OpTypePipe); p.aq = q; r.push_back(p); } return r; }(); return v;
	}
	struct Mod
	{
		track::Allocator al; Log log; std::unique_ptr<Module> m{ new Module(&al, spv::AddressingModel::Logical, spv::MemoryModel::GLSL450, &log) };
		~Mod() { m.reset(); }
		Instruction* ask(const Ask& a) { if (a.isType) { Type t(&al); plain(t, a.m); return m->addType(t); } Constant c(&al); plain(c, a.k); return m->addConstant(c); }
		unsigned count() { unsigned n = 0; for (Instruction& i : m->getTypesAndConstants()) { (void)i; ++n; } return n; }
		Bin write(Words* out = nullptr) { Writer w; if (!m->finalizeAndWrite(w)) mc::fail("write", "the module cannot be written: %s", log.last.c_str()); Bin b = parse(w.words); if (!b.ok) mc::fail("parse", "%s", b.error.c_str()); if (out) *out = w.words; return b; }
		void looksUp(const Ask& a, Instruction* in)
		{
			if (a.isType) { const Type* t = m->getTypeInfo(in); MC_CHECK(t != nullptr, "no-type-info", "no description of %s", show(a).c_str()); const std::string d = differs(*t, a.m); MC_CHECK(d.empty(), "type-info", "the description's %s is wrong: %s", d.c_str(), show(a).c_str()); Type q(&al); plain(q, a.m); MC_CHECK(m->getTypeInstr(q) == in, "type-instr", "another instruction is found for %s", show(a).c_str()); const Type* it = in->getType(); MC_CHECK(it && differs(*it, a.m).empty(), "instr-type", "the instruction's type is wrong: %s", show(a).c_str()); }
			else { const Constant* c = m->getConstantInfo(in); MC_CHECK(c != nullptr, "no-constant-info", "no description of %s", show(a).c_str()); const std::string d = differs(*c, a.k); MC_CHECK(d.empty(), "constant-info", "the description's %s is wrong: %s", d.c_str(), show(a).c_str()); const Type* it = in->getType(); MC_CHECK(it && differs(*it, a.k.type).empty(), "constant-type", "the value's type is wrong: %s", show(a).c_str()); MC_CHECK(in->getConstant() == c, "constant-info", "the instruction reports another constant: %s", show(a).c_str()); }
		}
		void encoded(const std::vector<std::pair<Ask, Instruction*>>& asked)
		{
			const Bin b = write(); const Table t = decode(b); MC_CHECK(t.error.empty(), "order", "%s", t.error.c_str());
			for (auto& [a, in] : asked) { if (a.isType && a.m.op == Op::OpTypeForwardPointer) { bool found = false; for (auto& [id, m2] : t.type) found |= m2 == a.m; MC_CHECK(found, "encoding", "no instruction encodes %s", show(a).c_str()); continue; } const uint32_t id = uint32_t(in->getResultId()); if (a.isType) { auto it = t.type.find(id); MC_CHECK(it != t.type.end() && it->second == a.m, "encoding", "%s instead of %s", it == t.type.end() ? "nothing" : types::show(it->second).c_str(), show(a).c_str()); } else { auto it = t.con.find(id); MC_CHECK(it != t.con.end() && it->second == a.k, "encoding", "%s instead of %s", it == t.con.end() ? "nothing" : types::show(it->second).c_str(), show(a).c_str()); } }
			std::unordered_map<std::string, uint32_t> seen; for (auto& [id, m2] : t.type) { auto r = seen.emplace("T" + types::show(m2), id); MC_CHECK(r.second, "duplicate", "%s is declared twice", types::show(m2).c_str()); } for (auto& [id, k] : t.con) if (spv::IsConstantOp(k.op)) { auto r = seen.emplace("K" + types::show(k), id); MC_CHECK(r.second, "duplicate", "%s is declared twice", types::show(k).c_str()); }
		}
	};
	// one after the other into one module; then again
	void all(const std::vector<Ask>& list, unsigned first)
	{
		Mod m; std::map<Instruction*, size_t> owner; std::vector<Instruction*> got(list.size()); auto ask = [&](size_t i) { got[i] = m.ask(list[i]); MC_CHECK(got[i] != nullptr, "null", "no instruction for %s", show(list[i]).c_str()); MC_CHECK(m.log.errors == 0, "error", "'%s' for %s", m.log.last.c_str(), show(list[i]).c_str()); auto r = owner.emplace(got[i], i); MC_CHECK(r.second || r.first->second == i, "conflated", "%s and %s are the same instruction", show(list[i]).c_str(), show(list[r.first->second]).c_str()); };
		ask(first); for (size_t i = 0; i < list.size(); ++i) ask(i); const unsigned n = m.count();
		for (size_t i = list.size(); i--;) { Instruction* again = m.ask(list[i]); MC_CHECK(again == got[i], "not-unique", "another instruction when %s is requested again", show(list[i]).c_str()); m.looksUp(list[i], got[i]); } MC_CHECK(m.count() == n, "grows", "%u instructions instead of %u after requesting everything again", m.count(), n);
		std::vector<std::pair<Ask, Instruction*>> p; for (size_t i = 0; i < list.size(); ++i) p.push_back({ list[i], got[i] }); m.encoded(p); mc::outcome("all distinct");
	}
	std::vector<Ask> asksT(const std::vector<M>& l) { std::vector<Ask> r; for (auto& m : l) r.push_back({ true, m, {} }); return r; }
	std::vector<Ask> asksK(const std::vector<K>& l) { std::vector<Ask> r; for (auto& k : l) r.push_back({ false, {}, k }); return r; }
}
MC_SCENARIO(all_types, 1) { const auto l = asksT(domain()); const unsigned f = mc::choose(l.size(), "first"); if (mc::tracing()) mc::op("first %s", show(l[f]).c_str()); all(l, f); mc::state(f); }
MC_SCENARIO(all_shapes, 1) { static const auto l = [] { std::vector<M> v; shapes(6, v); return asksT(v); }(); const unsigned stride = mc::thorough() ? 64 : 16; const unsigned f = mc::choose(stride, "first") * (unsigned(l.size()) / stride); all(l, f); mc::state(f); }
MC_SCENARIO(all_constants, 1) { const auto l = asksK(constants()); const unsigned f = mc::choose(l.size(), "first"); if (mc::tracing()) mc::op("first %s", show(l[f]).c_str()); all(l, f); mc::state(f); }
// specialisation constants are new ones each time, but encode what was asked for
MC_SCENARIO(spec_constants, 1)
{
	const auto l = asksK(specs()); const unsigned f = mc::choose(l.size(), "constant"); if (mc::tracing()) mc::op("%s", show(l[f]).c_str()); Mod m; std::vector<std::pair<Ask, Instruction*>> p; std::set<Instruction*> seen; for (unsigned i : { f, f, (f + 1) % unsigned(l.size()), f }) { Instruction* in = m.ask(l[i]); MC_CHECK(in && seen.insert(in).second, "shared", "a specialisation constant is shared: %s", show(l[i]).c_str()); MC_CHECK(m.log.errors == 0, "error", "'%s' for %s", m.log.last.c_str(), show(l[i]).c_str()); m.looksUp(l[i], in); p.push_back({ l[i], in }); } const Bin b = m.write(); const Table t = decode(b); MC_CHECK(t.error.empty(), "order", "%s", t.error.c_str()); for (auto& [a, in] : p) { auto it = t.con.find(uint32_t(in->getResultId())); MC_CHECK(it != t.con.end() && it->second == a.k, "encoding", "%s instead of %s", it == t.con.end() ? "nothing" : types::show(it->second).c_str(), show(a).c_str()); } mc::state(f); mc::outcome("separate");
}
// a description of a constant that comes into being another way describes the same constant
MC_SCENARIO(descriptions, 2)
{
	static const std::vector<K> all = [] { std::vector<K> v = constants(); for (const K& k : specs()) v.push_back(k); return v; }();
	const unsigned f = mc::choose(all.size(), "constant"), way = mc::choose(14, "way"), before = mc::choose(3, "before"); const K& k = all[f]; const std::string what = types::show(k) + " by way " + std::to_string(way) + " over " + std::to_string(before); mc::op("%s", what.c_str());
	track::Allocator al;
	{
		Constant ref(&al), c(&al); plain(ref, k); if (before) plain(c, all[before == 1 ? (f * 7 + 3) % all.size() : all.size() - 1 - f]);
		switch (way)
		{
		case 0: c = ref; break; case 1: { Constant t(ref); c = t; break; } case 2: { Constant t(ref); Constant u(stdrep::move(t)); c = stdrep::move(u); break; } case 3: c.reset(); plain(c, k); break; case 4: { c = ref; Constant& self = c; c = self; break; } case 5: { c = ref; Constant& self = c; c = stdrep::move(self); break; }
		default: { // by one of its own components: the last or the first of two, or a component of it; copied or moved
			const bool first = way & 1, deep = way & 2; const bool moved = way >= 10; Constant* p = &c; if (deep) { p = &c.Component(); c.Component(); } if (!first) { Constant& other = p->Component(); other = ref; other.getType().wrapStruct(); } Constant& own = p->Component(); own = ref; if (first) p->Component() = ref;
			if (moved) c = stdrep::move(own); else c = own; break; }
		}
		const std::string d = differs(c, k); MC_CHECK(d.empty(), "description", "the description's %s is wrong: %s", d.c_str(), what.c_str()); const std::string e = differs(ref, k); MC_CHECK(e.empty(), "source", "the %s of the description copied changes: %s", e.c_str(), what.c_str());
		Constant t(c); c.reset(); { const std::string g = differs(t, k); MC_CHECK(g.empty(), "shared", "the copy's %s is wrong after the source is reset: %s", g.c_str(), what.c_str()); } MC_CHECK(c.getComponents().empty() && c.getData().size() == 0, "reset", "something is left after reset: %s", what.c_str()); mc::outcome(way < 6 ? "copied, moved" : "by its own component");
	}
	al.expectEmpty("descriptions"); mc::state(mc::mix(mc::mix(f, way), before));
}
// by the C++ interface
namespace
{
	template<class T> Ask con(const T& v, Module& m, Instruction*& in, Op op, M type, std::vector<unsigned> data) { in = m.constant(v); K k; k.op = op; k.type = type; k.data = data; return { false, {}, k }; }
	const M F32 = leaf(Op::OpTypeFloat, 32), I32 = leaf(Op::OpTypeInt, 32, true), U32 = leaf(Op::OpTypeInt, 32);
	K kf(float f) { unsigned u; memcpy(&u, &f, 4); K k; k.op = Op::OpConstant; k.type = F32; k.data = { u }; return k; }
	K kc(M t, std::vector<K> s) { K k; k.op = Op::OpConstantComposite; k.type = t; k.sub = s; return k; }
}
MC_SCENARIO(cxx_constants, 1)
{
	const unsigned n = 22; const unsigned first = mc::choose(n, "first"); Mod h; Module& m = *h.m; std::vector<std::pair<Ask, Instruction*>> p; std::map<Instruction*, unsigned> owner;
	auto v2 = wrap(Op::OpTypeVector, F32, 2), v3 = wrap(Op::OpTypeVector, F32, 3);
	auto ask = [&](unsigned i) -> std::pair<Ask, Instruction*>
	{
		Instruction* in = nullptr; Ask a{ false, {}, {} }; auto I = [](unsigned w, bool s) { return leaf(Op::OpTypeInt, w, s); };
		switch (i)
		{
		case 0: a = con(true, m, in, Op::OpConstantTrue, leaf(Op::OpTypeBool), { 1 }); break; case 1: a = con(false, m, in, Op::OpConstantFalse, leaf(Op::OpTypeBool), { 0 }); break;
		case 2: a = con(1, m, in, Op::OpConstant, I(32, true), { 1 }); break; case 3: a = con(1u, m, in, Op::OpConstant, I(32, false), { 1 }); break; case 4: a = con(-1, m, in, Op::OpConstant, I(32, true), { ~0u }); break;
		case 5: a = con(short(-2), m, in, Op::OpConstant, I(16, true), { 0xfffffffeu }); break; case 6: a = con((unsigned short)0xfffe, m, in, Op::OpConstant, I(16, false), { 0xfffe }); break; case 7: a = con((unsigned char)200, m, in, Op::OpConstant, I(8, false), { 200 }); break; case 8: a = con(char(-3), m, in, Op::OpConstant, I(8, true), { 0xfffffffdu }); break;
		case 9: a = con(1.f, m, in, Op::OpConstant, F32, { 0x3f800000 }); break; case 10: a = con(-0.f, m, in, Op::OpConstant, F32, { 0x80000000 }); break; case 11: a = con(1.0, m, in, Op::OpConstant, leaf(Op::OpTypeFloat, 64), { 0, 0x3ff00000 }); break; case 12: a = con(0x100000002ll, m, in, Op::OpConstant, I(64, true), { 2, 1 }); break; case 13: a = con(0x100000002ull, m, in, Op::OpConstant, I(64, false), { 2, 1 }); break;
		case 14: in = m.constant(make_vector(1.f, 2.f)); a.k = kc(v2, { kf(1), kf(2) }); break; case 15: in = m.constant(make_vector(1.f, 2.f, 2.f)); a.k = kc(v3, { kf(1), kf(2), kf(2) }); break; case 16: in = m.constant(make_array(1.f, 2.f)); a.k = kc(wrap(Op::OpTypeArray, F32, 2), { kf(1), kf(2) }); break;
		case 17: in = m.constant(make_matrix(make_vector(1.f, 2.f), make_vector(3.f, 4.f), make_vector(5.f, 6.f))); a.k = kc(wrap(Op::OpTypeMatrix, v2, 3), { kc(v2, { kf(1), kf(2) }), kc(v2, { kf(3), kf(4) }), kc(v2, { kf(5), kf(6) }) }); break;
		case 18: { float mm[3][2] = { { 1, 2 }, { 3, 4 }, { 5, 7 } }; in = m.constant(make_matrix(mm)); a.k = kc(wrap(Op::OpTypeMatrix, v2, 3), { kc(v2, { kf(1), kf(2) }), kc(v2, { kf(3), kf(4) }), kc(v2, { kf(5), kf(7) }) }); break; }
		case 19: in = m.constant(const_null_t<vector_t<float, 2>>{}); a.k.type = v2; break; case 20: in = m.constant(const_null_t<int>{}); a.k.type = I32; break;
		default: { const_sampler_t s; s.addressMode = spv::SamplerAddressingMode::Repeat; s.coordMode = ConstantSamplerCoordMode::Normalized; s.filterMode = spv::SamplerFilterMode::Linear; in = m.constant(s); a.k.op = Op::OpConstantSampler; a.k.type = leaf(Op::OpTypeSampler); a.k.data = { unsigned(s.addressMode), 1, unsigned(s.filterMode) }; }
		}
		return { a, in };
	};
	auto step = [&](unsigned i) { auto r = ask(i); MC_CHECK(r.second && h.log.errors == 0, "error", "'%s' for %s", h.log.last.c_str(), show(r.first).c_str()); auto o = owner.emplace(r.second, i); MC_CHECK(o.second || o.first->second == i, "conflated", "constants %u and %u are the same instruction", i, o.first->second); h.looksUp(r.first, r.second); return r; };
	if (mc::tracing()) mc::op("constant %u first", first); auto f = step(first); for (unsigned i = 0; i < n; ++i) p.push_back(step(i)); MC_CHECK(p[first].second == f.second, "not-unique", "constant %u", first); const unsigned c = h.count(); for (unsigned i = 0; i < n; ++i) MC_CHECK(step(i).second == p[i].second, "not-unique", "constant %u", i); MC_CHECK(h.count() == c, "grows", "requests for existing constants add instructions"); h.encoded(p); mc::state(first); mc::outcome("distinct");
}
MC_SCENARIO(cxx_types, 1)
{
	struct E { const char* name; Instruction*(*f)(Module&); M want; }; static const std::vector<E> l = []
	{
		std::vector<E> r; auto V = [](const M& s, unsigned n) { return wrap(Op::OpTypeVector, s, n); };
#define X(w, ...) r.push_back({ #__VA_ARGS__, [](Module& m) -> Instruction* { return m.__VA_ARGS__; }, w });
		X(F32, type<float>()) X(I32, type<int>()) X(U32, type<unsigned int>()) X(leaf(Op::OpTypeFloat, 64), type<double>()) X(leaf(Op::OpTypeBool), type<bool>()) X(leaf(Op::OpTypeVoid), type<void>()) X(ptr(SC::Uniform, F32), type<float*>(SC::Uniform)) X(ptr(SC::Function, F32), type<float*>(SC::Function)) X(V(F32, 3), template type<vector_t<float, 3>>()) X(wrap(Op::OpTypeMatrix, V(F32, 3), 2), template type<matrix_t<float, 2, 3>>()) X(wrap(Op::OpTypeMatrix, V(F32, 2), 3), template type<matrix_t<float, 3, 2>>()) X(wrap(Op::OpTypeArray, F32, 5), template type<array_t<float, 5>>()) X(image(F32), type<dyn_image_t>())
		X(image(F32, spv::Dim::Cube), type<dyn_image_t>(spv::Dim::Cube)) X(image(F32, spv::Dim::Dim2D, 1, false, false, SamplerImageAccess::Storage, spv::ImageFormat::Rgba8), type<dyn_image_t>(SamplerImageAccess::Storage, spv::ImageFormat::Rgba8)) X(image(F32, spv::Dim::Dim2D, 1, false, false, SamplerImageAccess::Unknown, spv::ImageFormat::Unknown, spv::AccessQualifier::ReadWrite), type<dyn_image_t>(spv::AccessQualifier::ReadWrite))
		X(image(I32, spv::Dim::Dim3D, 0, true), type<dyn_image_t>(dyn_image_t{ dyn_scalar_t{ Op::OpTypeInt, 32, true }, spv::Dim::Dim3D, 0, true })) X(wrap(Op::OpTypeSampledImage, image(F32)), type<dyn_sampled_image_t>(dyn_sampled_image_t{})) X(V(I32, 2), type<dyn_vector_t>(dyn_vector_t{ dyn_scalar_t{ Op::OpTypeInt, 32, true }, 2 })) X(ptr(SC::UniformConstant, image(F32)), type<dyn_image_t*>(SC::UniformConstant, dyn_image_t{})) X(ptr(SC::UniformConstant, image(F32)), type<dyn_image_t*>(dyn_image_t{}, SC::UniformConstant))
		X(strct({ F32, I32 }), compositeType(Op::OpTypeStruct, m.type<float>(), m.type<int>())) X(strct({}), compositeType(Op::OpTypeStruct)) X(strct({ leaf(Op::OpTypeVoid), F32 }, Op::OpTypeFunction), compositeType(Op::OpTypeFunction, m.type<void>(), m.type<float>()))
#undef X
		{ M p = leaf(Op::OpTypePipe); p.aq = spv::AccessQualifier::ReadOnly; r.push_back({ "pipe", [](Module& m) -> Instruction* { return m.type<pipe_t>(spv::AccessQualifier::ReadOnly); }, p }); }
		r.push_back({ "compositeType(list)", [](Module& m) -> Instruction* { List<Instruction*> s(m.getAllocator()); s.emplace_back(m.type<float>()); s.emplace_back(m.type<float>()); return m.compositeType(Op::OpTypeStruct, s); }, strct({ F32, F32 }) });
		r.push_back({ "named", [](Module& m) -> Instruction* { return m.type<short>("aName"); }, leaf(Op::OpTypeInt, 16, true) }); return r;
	}();
	const unsigned first = mc::choose(l.size(), "first"), second = mc::choose(l.size(), "second"); if (mc::tracing()) mc::op("%s then %s", l[first].name, l[second].name); Mod h; std::vector<std::pair<Ask, Instruction*>> p;
	for (unsigned i : { first, second, first }) { Instruction* in = l[i].f(*h.m); MC_CHECK(in && h.log.errors == 0, "error", "'%s' for %s", h.log.last.c_str(), l[i].name); Ask a{ true, l[i].want, {} }; h.looksUp(a, in); p.push_back({ a, in }); } MC_CHECK(p[0].second == p[2].second, "not-unique", "%s", l[first].name); MC_CHECK((p[0].second == p[1].second) == (l[first].want == l[second].want), "conflated", "%s and %s", l[first].name, l[second].name); h.encoded(p); mc::state(mc::mix(first, second)); mc::outcome("typed");
}
// requests of every kind, interleaved with each other, with names and with numbering
MC_SCENARIO(histories, 2)
{
	static const std::vector<Ask> menu = [] { std::vector<Ask> r; const M s1 = strct({ F32 }), s2 = strct({ s1, F32 }), s3 = strct({ strct({ F32, F32 }) }), a2 = wrap(Op::OpTypeArray, F32, 2), a3 = wrap(Op::OpTypeArray, I32, 2), v2 = wrap(Op::OpTypeVector, F32, 2); for (const M& m : { F32, U32, v2, a2, a3, wrap(Op::OpTypeArray, a2, 3), s1, s2, s3, ptr(SC::Function, s2), ptr(SC::Uniform, s2), strct({ leaf(Op::OpTypeVoid), ptr(SC::Function, a2) }, Op::OpTypeFunction) }) r.push_back({ true, m, {} }); K two; two.op = Op::OpConstant; two.type = U32; two.data = { 2 }; K spec = two; spec.op = Op::OpSpecConstant; for (const K& k : { two, kf(1), kc(v2, { kf(1), kf(1) }), kc(s2, { kc(s1, { kf(1) }), kf(2) }), spec }) r.push_back({ false, {}, k }); return r; }();
	const unsigned depth = mc::bound(3, 4); Mod h; std::vector<std::pair<Ask, Instruction*>> got; uint64_t hs = 0; unsigned names = 0;
	for (unsigned s = 0; s < depth; ++s)
	{
		const unsigned k = mc::choose(menu.size() * 2 + 4, "request"); hs = mc::mix(hs, k); mc::op("request %u", k);
		if (k < menu.size() * 2)
		{
			const Ask& a = menu[k / 2]; const bool name = k & 1; Instruction* in; const std::string nm = "n" + std::to_string(++names); if (!name) in = h.ask(a); else if (a.isType) { Type t(&h.al); plain(t, a.m); in = h.m->addType(t, nm.c_str()); } else { Constant c(&h.al); plain(c, a.k); in = h.m->addConstant(c, nm.c_str()); }
			MC_CHECK(in && h.log.errors == 0, "error", "'%s' for %s", h.log.last.c_str(), show(a).c_str()); const bool fresh = !a.isType && spv::IsSpecConstantOp(a.k.op); for (auto& [b, old] : got) { const bool same = a.isType == b.isType && (a.isType ? a.m == b.m : a.k == b.k) && !fresh; MC_CHECK((old == in) == same, same ? "not-unique" : "conflated", "%s and %s", show(a).c_str(), show(b).c_str()); }
			if (name) { const char* n = h.m->getName(in); MC_CHECK(n != nullptr, "name", "the name given with the request is lost"); bool had = false; for (auto& [b, old] : got) had |= old == in; if (!had) { bool inner = std::string(n) == nm; MC_CHECK(inner, "name", "called '%s' instead of '%s'", n, nm.c_str()); } } got.push_back({ a, in });
		}
		else if (k == menu.size() * 2) h.m->assignIDs();
		else if (k == menu.size() * 2 + 1) h.write();
		else
		{
			// an instruction of the user's own for a description that does not outlive the call
			const bool isT = k == menu.size() * 2 + 2; Ask a{ isT, leaf(Op::OpTypeFloat, 16), {} }; a.k.op = Op::OpConstant; a.k.type = F32; a.k.data = { 77 }; Instruction* in; bool had = false; for (auto& [b, old] : got) had |= b.isType == isT && (isT ? b.m == a.m : b.k == a.k); if (had) { mc::outcome("already declared"); break; }
			if (isT) { std::unique_ptr<Type> t(new Type(&h.al)); plain(*t, a.m); in = h.m->addTypeInstr(t.get()); in->setOperation(Op::OpTypeFloat); in->addOperand(InvalidId); in->appendLiterals(16u); } else { std::unique_ptr<Constant> c(new Constant(&h.al)); plain(*c, a.k); Type f(&h.al); plain(f, F32); Instruction* ft = h.m->addType(f); in = h.m->addConstantInstr(c.get()); in->setOperation(Op::OpConstant); in->addOperand(ft); in->addOperand(InvalidId); in->appendLiterals(77u); } got.push_back({ a, in }); Instruction* again = h.ask(a); MC_CHECK(again == in, "not-unique", "the instruction added for %s is not used", show(a).c_str());
		}
		for (auto& [a, in] : got) if (a.isType || spv::IsConstantOp(a.k.op)) h.looksUp(a, in);
	}
	h.encoded(got); mc::state(hs); mc::outcome("history");
}
// many of a kind, and large ones that differ in one place
MC_SCENARIO(many, 1)
{
	static const unsigned SIZES[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 }; static const char* names[] = { "arrays of different lengths", "structs that differ in one member", "structs one in the other", "functions that differ in one parameter", "integers", "structs of different lengths", "composites that differ in one constituent", "arrays one in the other", "pointers, arrays and structs" };
	const unsigned n = SIZES[mc::choose(unsigned(sizeof SIZES / sizeof *SIZES), "number")], kind = mc::choose(9, "kind"); std::vector<Ask> l; mc::op("%u %s", n, names[kind]); const unsigned some = n > 40 ? 40 : n; auto place = [&](unsigned i) { return some < 2 ? 0 : unsigned(uint64_t(i) * (n - 1) / (some - 1)); }; auto integer = [](unsigned v) { K k; k.op = Op::OpConstant; k.type = U32; k.data = { v }; return k; };
	switch (kind)
	{
	case 0: for (unsigned i = 0; i < n; ++i) l.push_back({ true, wrap(Op::OpTypeArray, i % 2 ? F32 : I32, 1 + i / 2), {} }); break;
	case 1: case 3: for (unsigned i = 0; i <= some; ++i) { std::vector<M> m(n, F32); if (i < some) m[place(i)] = U32; if (kind == 3) m.insert(m.begin(), leaf(Op::OpTypeVoid)); l.push_back({ true, strct(m, kind == 3 ? Op::OpTypeFunction : Op::OpTypeStruct), {} }); } break;
	case 2: case 7: { if (n > 65) return; M m = F32; for (unsigned i = 0; i < n; ++i) { m = kind == 2 ? strct({ m }) : wrap(Op::OpTypeArray, m, 2 + i % 3); l.push_back({ true, m, {} }); } break; }
	case 4: for (unsigned i = 0; i < n * 4; ++i) l.push_back({ false, {}, integer(i * (i % 3 ? 1 : 65536)) }); { std::set<unsigned> seen; std::vector<Ask> u; for (auto& a : l) if (seen.insert(a.k.data[0]).second) u.push_back(a); l = u; } break;
	case 5: { if (n > 130) return; std::vector<M> m; for (unsigned i = 0; i < n; ++i) { m.push_back(i % 2 ? F32 : U32); l.push_back({ true, strct(m), {} }); } break; }
	case 6: for (unsigned i = 0; i <= some; ++i) { std::vector<K> k(n, integer(5)); if (i < some) k[place(i)] = integer(6); l.push_back({ false, {}, kc(wrap(Op::OpTypeArray, U32, n), k) }); } break;
	default: for (unsigned i = 0; i < n; ++i) { const M a = wrap(Op::OpTypeArray, F32, 1 + i); l.push_back({ true, a, {} }); l.push_back({ true, ptr(SC::Function, a), {} }); l.push_back({ true, strct({ a, U32 }), {} }); } break;
	}
	all(l, unsigned(l.size() / 2)); mc::state(mc::mix(n, kind));
}
