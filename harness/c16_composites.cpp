// C16: composite and pointer operations follow the type structure they index, or are rejected.
#include "ops.h"

namespace
{
	using Path = std::vector<unsigned>;
	M arr(const M& s, unsigned n) { return wrap(Op::OpTypeArray, s, n); }
	M rt(const M& s) { return wrap(Op::OpTypeRuntimeArray, s); }
	bool indexed(const M& t) { return t.isV() || t.isM() || t.op == Op::OpTypeArray || t.op == Op::OpTypeRuntimeArray || t.op == Op::OpTypeStruct; }
	bool composite(const M& t) { return indexed(t) && t.op != Op::OpTypeRuntimeArray; }
	bool sized(const M& t) { if (t.op == Op::OpTypePointer) return true; if (t.op == Op::OpTypeRuntimeArray) return false; for (auto& s : t.sub) if (!sized(s)) return false; return true; }
	unsigned count(const M& t) { return t.op == Op::OpTypeStruct ? t.sub.size() : t.op == Op::OpTypeRuntimeArray ? ~0u : t.w; }
	// the type reached by the indices
	const M* walk(const M& t, const Path& p, size_t at = 0) { if (at == p.size()) return &t; if (!indexed(t) || p[at] >= count(t)) return nullptr; return walk(t.sub[t.op == Op::OpTypeStruct ? p[at] : 0], p, at + 1); }
	std::string show(const Path& p) { std::string s = "("; for (unsigned i : p) s += (s.size() > 1 ? "," : "") + std::to_string(i); return s + ")"; }
	// every index list into the type, with one index out of range or one too many at the end of it
	void paths(const M& t, Path p, std::vector<Path>& out)
	{
		out.push_back(p); if (p.size() == 6) return; const unsigned n = indexed(t) ? count(t) : 0;
		std::set<unsigned> in, bad; if (n == ~0u) in = { 0, 1, 1000 }; else if (n > 4) in = { 0, 1, n - 1 }; else for (unsigned i = 0; i < n; ++i) in.insert(i);
		if (n != ~0u) bad = { n, n + 1, ~0u }; if (!n) bad = { 0, 1 };
		for (unsigned i : in) { Path q = p; q.push_back(i); paths(t.sub[t.op == Op::OpTypeStruct ? i : 0], q, out); }
		for (unsigned i : bad) { Path q = p; q.push_back(i); out.push_back(q); if (q.size() < 6) { q.push_back(0); out.push_back(q); } }
	}
	const std::vector<M>& domain()
	{
		static const std::vector<M> v = []
		{
			const M v4 = vec(F32, 4), v2 = vec(U32, 2), m32 = mat(F32, 3, 2), s1 = strct({ F32, v4 }), s2 = strct({ I32, m32, arr(s1, 2) }), img = image(F32, spv::Dim::Dim2D, 0, false, false, SamplerImageAccess::Sampled);
			std::vector<M> r{ F32, B, v4, v2, vec(B, 3), m32, mat(F64, 2, 4), arr(F32, 2), arr(v4, 3), arr(m32, 1), arr(arr(I32, 3), 2), strct({ F32 }), s1, s2, strct({ s2, v2, arr(F32, 7) }), strct({ strct({ strct({ v2, F32 }), I32 }) }), arr(s2, 5), strct({ arr(arr(s1, 1), 2), s1 }),
				rt(F32), rt(s1), strct({ v2, rt(F32) }), strct({ U32, m32, rt(s1) }), img, arr(img, 4), leaf(Op::OpTypeSampler), arr(wrap(Op::OpTypeSampledImage, img), 2), strct({ F32, ptr(SC::StorageBuffer, v4) }), ptr(SC::StorageBuffer, s1) };
			if (mc::thorough())
			{
				std::vector<M> l0{ F32, I32 }, l1, l2; for (const M& s : l0) { l1.push_back(vec(s, 2)); l1.push_back(vec(s, 3)); l1.push_back(arr(s, 1)); l1.push_back(arr(s, 3)); l1.push_back(strct({ s })); } l1.push_back(mat(F32, 2, 3)); l1.push_back(mat(F32, 4, 4)); l1.push_back(strct({ F32, I32 }));
				for (const M& a : l1) { l2.push_back(arr(a, 2)); l2.push_back(strct({ a })); for (const M& b : l1) l2.push_back(strct({ a, b })); l2.push_back(strct({ I32, a, F32 })); l2.push_back(strct({ I32, rt(a) })); }
				std::vector<M> l3; for (const M& a : l2) if (sized(a)) { l3.push_back(arr(a, 3)); l3.push_back(strct({ F32, a })); l3.push_back(strct({ a, vec(F32, 2), a })); } for (auto* l : { &l1, &l2, &l3 }) r.insert(r.end(), l->begin(), l->end());
			}
			return r;
		}(); return v;
	}
	void setup(Module& mod)
	{
		Module* m = &mod;
		using C = spv::Capability; for (C c : { C::Linkage, C::Shader, C::Int8, C::Int16, C::Int64, C::Float16, C::Float64, C::VariablePointers, C::VariablePointersStorageBuffer, C::RuntimeDescriptorArray }) m->addCapability(c);
		m->addExtension(spv::Extension::SPV_KHR_variable_pointers); m->addExtension(spv::Extension::SPV_EXT_descriptor_indexing); m->setSpvVersion(1, 4);
	}
	using L = List<unsigned int>;
	L list(Mod& x, const Path& p) { L l(&x.al); for (unsigned i : p) l.emplace_back(i); return l; }
#define SPREAD(P, ONE) switch ((P).size()) { case 0: return ONE0; case 1: return ONE(p[0]); case 2: return ONE(p[0], p[1]); case 3: return ONE(p[0], p[1], p[2]); case 4: return ONE(p[0], p[1], p[2], p[3]); case 5: return ONE(p[0], p[1], p[2], p[3], p[4]); default: return ONE(p[0], p[1], p[2], p[3], p[4], p[5]); }
	I chain(I i, I base, const Path& p) {
#define ONE0 i->opAccessChain(base)
#define ONE(...) i->opAccessChain(base, __VA_ARGS__)
		SPREAD(p, ONE)
#undef ONE
#undef ONE0
	}
	I chainTo(I i, I t, I base, const std::vector<I>& p) {
#define ONE0 i->opAccessChain(t, base)
#define ONE(...) i->opAccessChain(t, base, __VA_ARGS__)
		SPREAD(p, ONE)
#undef ONE
#undef ONE0
	}
	I inBounds(I i, I t, I base, const std::vector<I>& p) {
		switch (p.size()) { case 1: return i->opInBoundsAccessChain(t, base, p[0]); case 2: return i->opInBoundsAccessChain(t, base, p[0], p[1]); case 3: return i->opInBoundsAccessChain(t, base, p[0], p[1], p[2]); case 4: return i->opInBoundsAccessChain(t, base, p[0], p[1], p[2], p[3]); case 5: return i->opInBoundsAccessChain(t, base, p[0], p[1], p[2], p[3], p[4]); default: return i->opInBoundsAccessChain(t, base, p[0], p[1], p[2], p[3], p[4], p[5]); }
	}
	I extract(I i, I c, const Path& p) { switch (p.size()) { case 1: return i->opCompositeExtract(c, p[0]); case 2: return i->opCompositeExtract(c, p[0], p[1]); case 3: return i->opCompositeExtract(c, p[0], p[1], p[2]); case 4: return i->opCompositeExtract(c, p[0], p[1], p[2], p[3]); case 5: return i->opCompositeExtract(c, p[0], p[1], p[2], p[3], p[4]); default: return i->opCompositeExtract(c, p[0], p[1], p[2], p[3], p[4], p[5]); } }
	I insert(I i, I c, I v, const Path& p) { switch (p.size()) { case 1: return i->opCompositeInsert(c, v, p[0]); case 2: return i->opCompositeInsert(c, v, p[0], p[1]); case 3: return i->opCompositeInsert(c, v, p[0], p[1], p[2]); case 4: return i->opCompositeInsert(c, v, p[0], p[1], p[2], p[3]); case 5: return i->opCompositeInsert(c, v, p[0], p[1], p[2], p[3], p[4]); default: return i->opCompositeInsert(c, v, p[0], p[1], p[2], p[3], p[4], p[5]); } }
	I construct(I i, I t, const std::vector<I>& p) { switch (p.size()) { case 1: return i->opCompositeConstruct(t, p[0]); case 2: return i->opCompositeConstruct(t, p[0], p[1]); case 3: return i->opCompositeConstruct(t, p[0], p[1], p[2]); case 4: return i->opCompositeConstruct(t, p[0], p[1], p[2], p[3]); case 5: return i->opCompositeConstruct(t, p[0], p[1], p[2], p[3], p[4]); default: return i->opCompositeConstruct(t, p[0], p[1], p[2], p[3], p[4], p[5]); } }
	const std::vector<SC>& classes() { static const std::vector<SC> v{ SC::Function, SC::Private, SC::Uniform, SC::StorageBuffer, SC::Workgroup, SC::Input, SC::Output, SC::PushConstant, SC::UniformConstant }; return v; }
	// the emitted index constants
	bool constant(const Table& t, uint32_t i, unsigned v) { auto k = t.con.find(i); return k != t.con.end() && k->second.type == U32 && k->second.data == std::vector<unsigned>{ v }; }
	bool opaque(const M& t) { if (t.op == Op::OpTypePointer) return false; if (t.op == Op::OpTypeImage || t.op == Op::OpTypeSampler || t.op == Op::OpTypeSampledImage) return true; for (auto& s : t.sub) if (opaque(s)) return true; return false; }
	bool holds(const M& t, Op o) { if (t.op == o) return true; if (t.op == Op::OpTypePointer) return false; for (auto& s : t.sub) if (holds(s, o)) return true; return false; }
	// whether a variable of the class can hold the type
	bool legal(SC sc, const M& t) { if (opaque(t)) return sc == SC::UniformConstant; if (sc == SC::UniformConstant) return !holds(t, Op::OpTypeBool) && !holds(t, Op::OpTypePointer); if (!sized(t)) return sc == SC::StorageBuffer || sc == SC::Uniform; if (holds(t, Op::OpTypePointer)) return sc == SC::Private || sc == SC::Function; if (holds(t, Op::OpTypeBool)) return sc == SC::Private || sc == SC::Function || sc == SC::Workgroup; return true; }
}

// access chains by index lists
MC_SCENARIO(chains, 3)
{
	const unsigned form = mc::choose(2, "form"), ti = mc::choose(domain().size(), "type"), ci = mc::choose(classes().size(), "class"); const M& t = domain()[ti]; const SC sc = classes()[ci]; if (!legal(sc, t)) return; const char* name = form ? "opAccessChain(list)" : "opAccessChain"; mc::op("%s into %s in class %u", name, types::show(t).c_str(), unsigned(sc)); mc::state(mc::mix(mc::mix(form, ti), ci));
	std::vector<Path> ps; paths(t, {}, ps); std::vector<Try> ts;
	for (const Path& p : ps)
	{
		Try y{ name, std::string(name) + " " + types::show(t) + " " + show(p) }; y.emit = [=](Mod& x) -> I { I base = x.var(sc, t); I i = x.add(); if (form) return i->opAccessChain(base, list(x, p)); return chain(i, base, p); };
		if (const M* r = walk(t, p)) { y.op = Op::OpAccessChain; y.type = ptr(sc, *r); y.operands = [=](Mod& x, const Table& tab) { std::vector<uint32_t> e{ id(x.var(sc, t)) }; for (unsigned i : p) { uint32_t c = 0; for (auto& k : tab.con) if (constant(tab, k.first, i)) c = k.first; e.push_back(c); } return e; }; }
		ts.push_back(std::move(y));
	}
	// a base that is no pointer
	for (const Path& p : { Path{}, Path{ 0 }, Path{ 1 } }) if (!opaque(t) && sized(t) && t.op != Op::OpTypePointer) { Try y{ name, std::string(name) + " of the value " + types::show(t) + " " + show(p) }; y.emit = [=](Mod& x) -> I { I base = x.undef(t); I i = x.add(); if (form) return i->opAccessChain(base, list(x, p)); return chain(i, base, p); }; ts.push_back(std::move(y)); }
	judge(ts);
}

// access chains with a given result type and index instructions
MC_SCENARIO(typed_chains, 4)
{
	const unsigned form = mc::choose(2, "form"), kind = mc::choose(7, "index kind"), ti = mc::choose(domain().size(), "type"), ci = mc::choose(classes().size(), "class"); const M& t = domain()[ti]; const SC sc = classes()[ci]; if (!legal(sc, t)) return; if ((!mc::thorough() && ci > 3 && kind > 1) || (ti >= 28 && ci != 1 && ci != 3)) return; const char* name = form ? "opInBoundsAccessChain" : "opAccessChain(typed)";
	static const char* const K[] = { "unsigned constants", "signed constants", "64 bit constants", "values", "specialisation constants", "float constants", "constants for members, values otherwise" }; mc::op("%s into %s in class %u with %s", name, types::show(t).c_str(), unsigned(sc), K[kind]); mc::state(mc::mix(mc::mix(form, kind), mc::mix(ti, ci)));
	auto index = [=](Mod& x, unsigned i, bool member) -> I { switch (kind) { case 0: return x.m->constant<unsigned>(i); case 1: return x.m->constant<int>(int(i)); case 2: return x.m->constant<unsigned long long>(i == ~0u ? ~0ull : i); case 3: return x.undef(I32); case 4: return x.undefs["S" + std::to_string(i)] ? x.undefs["S" + std::to_string(i)] : x.undefs["S" + std::to_string(i)] = x.m->constant<unsigned>(i, true); case 5: return x.m->constant<float>(float(i)); default: return member ? x.m->constant<unsigned>(i) : x.undef(U32); } };
	std::vector<Path> ps; paths(t, {}, ps); std::vector<Try> ts; std::set<std::string> seen;
	for (const Path& p : ps)
	{
		if (form && p.empty()) continue; std::vector<bool> member; bool fits = true, first = true; const M* at = &t; std::string key;
		for (unsigned i : p) { const bool s = at && at->op == Op::OpTypeStruct; const bool con = kind < 3 || kind == 5 || (kind == 6 && s); member.push_back(s); if (!at || !indexed(*at) || kind == 5) fits = false; else if (s ? (kind >= 3 && kind != 6) || i >= count(*at) : con && i >= count(*at)) fits = false; key += con || kind == 4 ? std::to_string(i) + "," : "*,"; if (form && first && (kind == 3 || (kind == 6 && !s))) fits = false; first = false; if (fits) at = &at->sub[s ? i : 0]; else at = nullptr; }
		if (!seen.insert(key).second) continue;
		std::vector<std::pair<M, bool>> results; // the type named as the result type, and whether it is the right one
		const M right = ptr(sc, fits ? *at : F32); results.push_back({ right, fits }); if (fits) { results.push_back({ ptr(sc == SC::Private ? SC::Function : SC::Private, right.sub[0]), false }); results.push_back({ ptr(sc, right.sub[0] == F32 ? I32 : F32), false }); if (!opaque(right) && sized(right)) results.push_back({ right.sub[0], false }); if (!(right.sub[0] == t)) results.push_back({ ptr(sc, t), false }); }
		for (auto& [rt, ok] : results)
		{
			Try y{ name, std::string(name) + " " + types::show(t) + " " + show(p) + " by " + K[kind] + " as " + types::show(rt) }; const M res = rt; y.emit = [=](Mod& x) -> I { I base = x.var(sc, t), ty = x.type(res); std::vector<I> is; for (size_t k = 0; k < p.size(); ++k) is.push_back(index(x, p[k], member[k])); I i = x.add(); return form ? inBounds(i, ty, base, is) : chainTo(i, ty, base, is); };
			if (ok) { y.op = form ? Op::OpInBoundsAccessChain : Op::OpAccessChain; y.type = res; y.operands = [=](Mod& x, const Table&) { std::vector<uint32_t> e{ id(x.var(sc, t)) }; for (size_t k = 0; k < p.size(); ++k) e.push_back(id(index(x, p[k], member[k]))); return e; }; }
			ts.push_back(std::move(y));
		}
	}
	judge(ts);
}

// extraction and insertion
MC_SCENARIO(parts, 2)
{
	const unsigned form = mc::choose(3, "form"), ti = mc::choose(domain().size(), "type"); const M& t = domain()[ti]; if (!sized(t) || opaque(t)) return; static const char* const names[] = { "opCompositeExtract", "opCompositeExtractDynamic", "opCompositeInsert" }; const char* name = names[form]; mc::op("%s of %s", name, types::show(t).c_str()); mc::state(mc::mix(form, ti));
	std::vector<Path> ps; paths(t, {}, ps); std::vector<Try> ts;
	for (const Path& p : ps)
	{
		if (p.empty() && form != 1) continue; const M* r = p.empty() ? nullptr : walk(t, p); std::vector<M> values{ r ? *r : F32 }; if (form == 2) { for (const M& v : { F32, I32, vec(F32, 4), t }) if (!(v == values[0])) values.push_back(v); }
		for (size_t k = 0; k < values.size(); ++k)
		{
			const M v = values[k]; if (form == 2 && v.op == Op::OpTypePointer && !r) continue; Try y{ name, std::string(name) + " " + types::show(t) + " " + show(p) + (form == 2 ? " = " + types::show(v) : "") }; y.emit = [=](Mod& x) -> I { I c = x.undef(t), u = form == 2 ? x.undef(v, 1) : nullptr; I i = x.add(); return form == 0 ? extract(i, c, p) : form == 1 ? i->opCompositeExtractDynamic(c, list(x, p)) : insert(i, c, u, p); };
			if (r && k == 0) { y.op = form == 2 ? Op::OpCompositeInsert : Op::OpCompositeExtract; y.type = form == 2 ? t : *r; y.operands = [=](Mod& x, const Table&) { std::vector<uint32_t> e; if (form == 2) e.push_back(id(x.undef(v, 1))); e.push_back(id(x.undef(t))); e.insert(e.end(), p.begin(), p.end()); return e; }; }
			ts.push_back(std::move(y));
		}
	}
	judge(ts);
}

// construction out of every list of constituents
MC_SCENARIO(construction, 3)
{
	static const std::vector<M> results{ vec(F32, 2), vec(F32, 3), vec(F32, 4), vec(I32, 3), vec(B, 4), mat(F32, 2, 2), mat(F32, 3, 2), mat(F32, 4, 3), arr(F32, 1), arr(F32, 3), arr(vec(F32, 2), 2), arr(arr(F32, 1), 2), strct({ F32 }), strct({ F32, vec(F32, 2), I32 }), strct({ vec(F32, 2), strct({ F32 }) }), strct({ arr(F32, 3), mat(F32, 2, 2) }), F32, ptr(SC::Private, F32), rt(F32) };
	static const std::vector<M> parts{ F32, I32, vec(F32, 2), vec(F32, 3), strct({ F32 }), arr(F32, 1), B, vec(B, 2), vec(I32, 2), mat(F32, 2, 2), arr(F32, 3) };
	const unsigned form = mc::choose(2, "form"), ri = mc::choose(results.size(), "result"), pi = mc::choose(parts.size(), "first"); const M& t = results[ri]; const char* name = form ? "opCompositeConstructDynamic" : "opCompositeConstruct"; mc::op("%s of %s from %s", name, types::show(t).c_str(), types::show(parts[pi]).c_str()); mc::state(mc::mix(mc::mix(form, ri), pi));
	std::vector<Try> ts; const unsigned wide = mc::bound(6, parts.size());
	std::function<void(std::vector<M>)> rec = [&](std::vector<M> c)
	{
		bool ok = composite(t); if (ok && t.isV()) { unsigned n = 0; for (auto& m : c) { if (m == t.sub[0]) ++n; else if (m.isV() && m.sub[0] == t.sub[0]) n += m.w; else ok = false; } ok = ok && n == t.w && c.size() > 1; } else if (ok) { ok = c.size() == count(t); for (size_t k = 0; ok && k < c.size(); ++k) ok = c[k] == t.sub[t.op == Op::OpTypeStruct ? k : 0]; }
		std::string what = std::string(name) + " " + types::show(t) + " from"; for (auto& m : c) what += " " + types::show(m); Try y{ name, what }; y.emit = [=](Mod& x) -> I { I ty = x.type(t); std::vector<I> us; for (size_t k = 0; k < c.size(); ++k) us.push_back(x.undef(c[k], k)); List<I> l(&x.al); for (I u : us) l.emplace_back(u); I i = x.add(); return form ? i->opCompositeConstructDynamic(ty, l) : construct(i, ty, us); };
		if (ok) { y.op = Op::OpCompositeConstruct; y.type = t; y.operands = [=](Mod& x, const Table&) { std::vector<uint32_t> e; for (size_t k = 0; k < c.size(); ++k) e.push_back(id(x.undef(c[k], k))); return e; }; }
		ts.push_back(std::move(y)); if (c.size() == 5) return; for (size_t k = 0; k < (c.size() > 2 ? mc::bound(3, 4) : c.size() > 1 ? wide : parts.size()); ++k) { auto d = c; d.push_back(parts[k]); rec(d); }
	};
	rec({ parts[pi] }); if (form && pi == 0) { Try y{ name, std::string(name) + " of nothing" }; y.emit = [=](Mod& x) -> I { I ty = x.type(t); List<I> l(&x.al); I i = x.add(); return i->opCompositeConstructDynamic(ty, l); }; ts.push_back(std::move(y)); } judge(ts);
}

// shuffles, dynamic component access
MC_SCENARIO(vectors, 3)
{
	static const std::vector<M> ts0{ vec(F32, 2), vec(F32, 3), vec(F32, 4), vec(I32, 2), vec(I32, 3), vec(U32, 2), vec(B, 2), vec(F64, 2), F32, I32, mat(F32, 2, 2), arr(F32, 2), strct({ F32, F32 }), leaf(Op::OpTypeInt, 64), leaf(Op::OpTypeInt, 16, true) };
	const unsigned form = mc::choose(3, "form"), ai = mc::choose(ts0.size(), "first"), bi = mc::choose(ts0.size(), "second"); const M &a = ts0[ai], &b = ts0[bi]; static const char* const names[] = { "opVectorShuffle", "opVectorExtractDynamic", "opVectorInsertDynamic" }; const char* name = names[form]; mc::op("%s of %s, %s", name, types::show(a).c_str(), types::show(b).c_str()); mc::state(mc::mix(mc::mix(form, ai), bi)); std::vector<Try> ts;
	auto two = [&](std::string what, std::function<I(Mod&, I, I)> f) { Try y{ name, std::string(name) + " " + types::show(a) + ", " + types::show(b) + what }; const M A = a, BB = b; y.emit = [=](Mod& x) -> I { I u = x.undef(A), v = x.undef(BB, 1); return f(x, u, v); }; return y; };
	if (form == 0)
	{
		const bool fit = a.isV() && b.isV() && a.sub[0] == b.sub[0]; const unsigned n = (a.isV() ? a.w : 1) + (b.isV() ? b.w : 1); std::vector<unsigned> idx; for (unsigned i = 0; i <= n; ++i) idx.push_back(i); idx.push_back(~0u); idx.push_back(~0u - 1);
		std::function<void(Path)> rec = [&](Path p)
		{
			if (p.size() >= 2) { bool ok = fit; for (unsigned i : p) ok = ok && (i < n || i == ~0u); Try y = two(" " + show(p), [=](Mod& x, I u, I v) -> I { I i = x.add(); return p.size() == 2 ? i->opVectorShuffle(u, v, p[0], p[1]) : p.size() == 3 ? i->opVectorShuffle(u, v, p[0], p[1], p[2]) : i->opVectorShuffle(u, v, p[0], p[1], p[2], p[3]); }); if (ok) { y.op = Op::OpVectorShuffle; y.type = vec(a.sub[0], p.size()); const M A = a, BB = b; y.operands = [=](Mod& x, const Table&) { std::vector<uint32_t> e{ id(x.undef(A)), id(x.undef(BB, 1)) }; e.insert(e.end(), p.begin(), p.end()); return e; }; } ts.push_back(std::move(y)); }
			if (p.size() < (fit ? 4 : 2)) for (unsigned i : idx) { if (p.size() == 3 && !mc::thorough() && n > 5 && i > 1 && i < n - 1) continue; Path q = p; q.push_back(i); rec(q); }
		};
		rec({});
	}
	else if (form == 1) { Try y = two("", [](Mod& x, I u, I v) { return x.add()->opVectorExtractDynamic(u, v); }); if (a.isV() && b.isI()) { y.op = Op::OpVectorExtractDynamic; y.type = a.sub[0]; const M A = a, BB = b; y.operands = [=](Mod& x, const Table&) { return std::vector<uint32_t>{ id(x.undef(A)), id(x.undef(BB, 1)) }; }; } ts.push_back(std::move(y)); }
	else for (const M& c : ts0) { Try y = two(", " + types::show(c), [=](Mod& x, I u, I v) -> I { I w = x.undef(c, 2); return x.add()->opVectorInsertDynamic(u, v, w); }); if (a.isV() && b == a.sub[0] && c.isI()) { y.op = Op::OpVectorInsertDynamic; y.type = a; const M A = a, BB = b; y.operands = [=](Mod& x, const Table&) { return std::vector<uint32_t>{ id(x.undef(A)), id(x.undef(BB, 1)), id(x.undef(c, 2)) }; }; } ts.push_back(std::move(y)); }
	judge(ts);
}

// selection between two objects
MC_SCENARIO(selection, 2)
{
	static const std::vector<M> objs{ F32, I32, B, vec(F32, 2), vec(F32, 3), vec(I32, 2), vec(B, 2), mat(F32, 2, 2), arr(F32, 2), arr(F32, 3), strct({ F32, I32 }), strct({ F32 }), ptr(SC::StorageBuffer, F32), ptr(SC::Function, F32), leaf(Op::OpTypeSampler) }; static const std::vector<M> conds{ B, vec(B, 2), vec(B, 3), vec(B, 4), I32, vec(I32, 2), F32, strct({ B }) };
	const unsigned ci = mc::choose(conds.size(), "condition"), ai = mc::choose(objs.size(), "object"); const M &c = conds[ci], &a = objs[ai]; mc::op("opSelect %s ? %s", types::show(c).c_str(), types::show(a).c_str()); mc::state(mc::mix(ci, ai)); std::vector<Try> ts;
	for (const M& b : objs) { Try y{ "opSelect", "opSelect " + types::show(c) + " ? " + types::show(a) + " : " + types::show(b) }; const M C = c, A = a; auto obj = [](Mod& x, const M& m, unsigned n) { return m.op == Op::OpTypePointer ? x.var(m.sc, m.sub[0], n) : x.undef(m, n); }; y.emit = [=](Mod& x) -> I { I k = x.undef(C, 9), u = obj(x, A, 0), v = obj(x, b, 1); return x.add()->opSelect(k, u, v); }; if (a == b && a.op != Op::OpTypeSampler && (c == B || (c.isV() && c.sub[0] == B && a.isV() && a.w == c.w))) { y.op = Op::OpSelect; y.type = a; y.operands = [=](Mod& x, const Table&) { return std::vector<uint32_t>{ id(x.undef(C, 9)), id(obj(x, A, 0)), id(obj(x, b, 1)) }; }; if (a.op == Op::OpTypePointer && a.sc == SC::Function) y.free = true; } if (y.free) continue; ts.push_back(std::move(y)); }
	judge(ts);
}

// loads, stores and copies through pointers; these leave an empty instruction behind when they are rejected
MC_SCENARIO(memory, 3)
{
	static const std::vector<M> held{ F32, I32, U32, B, vec(F32, 4), mat(F32, 2, 2), arr(F32, 2), strct({ F32, I32 }), strct({ F32, vec(F32, 4) }), strct({ U32, rt(F32) }), strct({ F32, ptr(SC::StorageBuffer, F32) }), strct({ ptr(SC::StorageBuffer, strct({ U32, rt(F32) })) }), rt(F32) }; static const std::vector<SC> cls{ SC::Function, SC::Private, SC::StorageBuffer, SC::Workgroup, SC::Output, SC::Uniform, SC::Input };
	const unsigned op = mc::choose(3, "operation"), ci = mc::choose(cls.size(), "class"), hi = mc::choose(held.size(), "type"); const SC sc = cls[ci]; const M& t = held[hi]; if (!legal(sc, t)) return; static const char* const names[] = { "opLoad", "opStore", "opCopyMemory", "opCopyMemorySized" }; const char* name = names[op]; mc::op("%s in class %u of %s", name, unsigned(sc), types::show(t).c_str()); mc::state(mc::mix(mc::mix(op, ci), hi)); std::vector<Try> ts; using MA = spv::MemoryAccessMask;
	if (op == 0)
	{
		for (unsigned mask : { 0u, 1u, 4u, 2u }) { Try y{ name, std::string(name) + " of " + types::show(ptr(sc, t)) + " with " + std::to_string(mask) }; y.emit = [=](Mod& x) -> I { I p = x.var(sc, t); I i = x.add(); return mask == 2 ? i->opLoad(p, MA::Aligned, 4u) : i->opLoad(p, Flag<MA>(MA(mask))); }; if (sized(t)) { y.op = Op::OpLoad; y.type = t; y.operands = [=](Mod& x, const Table&) { std::vector<uint32_t> e{ id(x.var(sc, t)), mask }; if (mask == 2) e.push_back(4); return e; }; } ts.push_back(std::move(y)); }
		if (sized(t)) { Try y{ name, std::string(name) + " of the value " + types::show(t) }; y.emit = [=](Mod& x) -> I { I p = x.undef(t); return x.add()->opLoad(p); }; ts.push_back(std::move(y)); }
		{ Try y{ name, std::string(name) + " with operands, but no mask" }; y.emit = [=](Mod& x) -> I { I p = x.var(sc, t); return x.add()->opLoad(p, MA::MaskNone, 4u); }; ts.push_back(std::move(y)); }
		judge(ts); return;
	}
	const bool writable = sc != SC::Input;
	// operations without a result: the instruction itself tells
	Mod x; struct Case { std::string what; I ins; bool must, may; std::function<std::vector<uint32_t>()> words; size_t errors; }; std::vector<Case> cs; auto note = [&](std::string what, bool must, bool may, std::function<void(I)> f, std::function<std::vector<uint32_t>()> w) { I i = x.add(); const size_t before = x.log.errors; f(i); cs.push_back({ what, i, must, may, w, x.log.errors - before }); };
	I p = x.var(sc, t);
	if (op == 1)
	{
		for (const M& v : held) if (sized(v)) { I u = x.undef(v, 1); const bool fit = v == t && writable; if (v == t && !writable) continue; note("opStore to " + types::show(ptr(sc, t)) + " of " + types::show(v), fit, fit, [=](I i) { i->opStore(p, u); }, [=] { return std::vector<uint32_t>{ id(p), id(u), 0 }; }); }
		if (sized(t)) { I u = x.undef(t, 1); note("opStore to the value " + types::show(t), false, false, [=](I i) { i->opStore(u, u); }, [] { return std::vector<uint32_t>(); }); if (writable) { note("opStore aligned", true, true, [=](I i) { i->opStore(p, u, MA::Aligned, 16u); }, [=] { return std::vector<uint32_t>{ id(p), id(u), 2, 16 }; }); note("opStore with operands, but no mask", false, false, [=](I i) { i->opStore(p, u, MA::MaskNone, 16u); }, [] { return std::vector<uint32_t>(); }); } I q = x.var(SC::Private, t, 2); note("opStore of the pointer", false, false, [=](I i) { i->opStore(q, q); }, [] { return std::vector<uint32_t>(); }); }
	}
	else if (writable) for (const M& v : held) for (SC s : { SC::Private, SC::Function, SC::Input, SC::StorageBuffer })
	{
		if (!legal(s, v)) continue; I q = x.var(s, v, 1); const bool fit = v == t && sized(t) && sized(v);
		if (op == 2) { note("opCopyMemory to " + types::show(ptr(sc, t)) + " from " + types::show(ptr(s, v)), fit, fit, [=](I i) { i->opCopyMemory(p, q); }, [=] { return std::vector<uint32_t>{ id(p), id(q) }; }); if (fit) { note("opCopyMemory volatile", true, true, [=](I i) { i->opCopyMemory(p, q, MA::Volatile); }, [=] { return std::vector<uint32_t>{ id(p), id(q), 1 }; }); note("opCopyMemory with two masks", true, true, [=](I i) { i->opCopyMemory(p, q, MA::Aligned, MA::Volatile, 4u); }, [=] { return std::vector<uint32_t>{ id(p), id(q), 2, 4, 1 }; }); note("opCopyMemory with two aligned masks", true, true, [=](I i) { i->opCopyMemory(p, q, Flag<MA>(MA::Aligned) | MA::Volatile, Flag<MA>(MA::Aligned), 4u, 8u); }, [=] { return std::vector<uint32_t>{ id(p), id(q), 3, 4, 2, 8 }; }); note("opCopyMemory with source alignment", true, true, [=](I i) { i->opCopyMemory(p, q, MA::Nontemporal, MA::Aligned, 8u); }, [=] { return std::vector<uint32_t>{ id(p), id(q), 4, 2, 8 }; }); note("opCopyMemory without the alignment", false, false, [=](I i) { i->opCopyMemory(p, q, MA::Aligned, MA::Volatile); }, [] { return std::vector<uint32_t>(); }); note("opCopyMemory with operands, but no mask", false, false, [=](I i) { i->opCopyMemory(p, q, MA::MaskNone, MA::MaskNone, 4u); }, [] { return std::vector<uint32_t>(); }); } if (sized(v)) { I u = x.undef(v, 1); note("opCopyMemory from a value", false, false, [=](I i) { i->opCopyMemory(p, u); }, [] { return std::vector<uint32_t>(); }); } }
	}
	if (!cs.empty())
	{
		x.add()->opReturn(); std::vector<bool> emitted; for (const Case& c : cs) { mc::checked(); const bool e = c.ins->getOperation() != Op::OpNop; emitted.push_back(e); MC_CHECK(e || !c.must, keep(std::string(name) + ": rejected"), "%s is rejected though it fits the type", c.what.c_str()); MC_CHECK(!e || c.may, keep(std::string(name) + ": accepted"), "%s is accepted though it does not fit the type", c.what.c_str()); MC_CHECK(e || c.errors, keep(std::string(name) + ": silent"), "%s is rejected without any message", c.what.c_str()); }
		const Words w = x.write(); const std::string e = validate(w); MC_CHECK(e.empty(), keep(std::string(name) + ": " + sig(e)), "%s: %s%s", name, e.c_str(), ir::trace(w).c_str()); const Bin bin = parse(w); size_t at = 0; for (auto& in : bin.ins) if (Op(in.op) == Op::OpStore || Op(in.op) == Op::OpCopyMemory || Op(in.op) == Op::OpCopyMemorySized) { while (at < cs.size() && !emitted[at]) ++at; if (at == cs.size()) break; const std::vector<uint32_t> got(in.w.begin() + 1, in.w.end()); MC_CHECK(got == cs[at].words(), keep(std::string(name) + ": operands"), "%s has other operands", cs[at].what.c_str()); ++at; } mc::outcome(name);
	}
}

// the length of a run-time array
MC_SCENARIO(array_length, 2)
{
	static const std::vector<M> ts0{ strct({ rt(F32) }), strct({ U32, rt(F32) }), strct({ U32, arr(F32, 2), rt(strct({ F32, I32 })) }), strct({ rt(F32), U32 }), strct({ U32, arr(F32, 2) }), arr(F32, 2), strct({}), F32, rt(F32) }; const unsigned ti = mc::choose(ts0.size(), "type"), val = mc::choose(2, "value"); const M& t = ts0[ti]; mc::op("opArrayLength of %s%s", val ? "the value " : "", types::show(t).c_str()); mc::state(mc::mix(ti, val)); std::vector<Try> ts; const bool bad = t.op == Op::OpTypeStruct && t.sub.size() == 2 && !sized(t.sub[0]); if (val && (!sized(t) || bad)) return;
	if (bad) return; // no such structure can be declared
	for (unsigned i : { 0u, 1u, 2u, 3u, ~0u }) { Try y{ "opArrayLength", "opArrayLength " + types::show(t) + " " + std::to_string(i) }; const M T = t; y.emit = [=](Mod& x) -> I { I b = val ? x.undef(T) : x.var(SC::StorageBuffer, T); return x.add()->opArrayLength(b, i); }; if (!val && t.op == Op::OpTypeStruct && !t.sub.empty() && t.sub.back().op == Op::OpTypeRuntimeArray && i + 1 == t.sub.size()) { y.op = Op::OpArrayLength; y.type = U32; y.operands = [=](Mod& x, const Table&) { return std::vector<uint32_t>{ id(x.var(SC::StorageBuffer, T)), i }; }; } ts.push_back(std::move(y)); }
	judge(ts);
}

// calls with every list of arguments
MC_SCENARIO(calls, 2)
{
	static const std::vector<std::vector<M>> sigs{ { leaf(Op::OpTypeVoid) }, { F32 }, { F32, F32 }, { leaf(Op::OpTypeVoid), I32, F32 }, { vec(F32, 2), vec(F32, 2), F32 }, { strct({ F32, I32 }), strct({ F32, I32 }), ptr(SC::Function, F32) }, { I32, F32, F32, I32 }, { B, arr(F32, 2), ptr(SC::Private, F32) } };
	static const std::vector<M> args{ F32, I32, vec(F32, 2), strct({ F32, I32 }), ptr(SC::Function, F32), ptr(SC::Private, F32), arr(F32, 2), U32, strct({ F32 }), ptr(SC::Function, I32) };
	const unsigned form = mc::choose(4, "form"), si = mc::choose(sigs.size(), "signature"); const auto& s = sigs[si]; static const char* const names[] = { "opFunctionCall", "opFunctionCallDynamic", "call", "callDynamic" }; const char* name = names[form]; mc::op("%s of signature %u", name, si); mc::state(mc::mix(form, si)); std::vector<Try> ts;
	auto arg = [](Mod& x, const M& m, unsigned n) { return m.op == Op::OpTypePointer ? x.var(m.sc, m.sub[0], n) : x.undef(m, n); };
	auto callee = [=](Mod& x) -> Function* { static std::map<Mod*, int> none; I& u = x.undefs["callee"]; if (!u) { Function& f = x.m->addFunction(); f.setReturnType(x.type(s[0])); std::vector<I> ps; for (size_t k = 1; k < s.size(); ++k) { f.addParameters(x.type(s[k])); } f.finalize(spv::FunctionControlMask::MaskNone, "callee"); BasicBlock& b = f.addBasicBlock("b"); if (s[0].op == Op::OpTypeVoid) { b.addInstruction()->opReturn(); } else { I r = x.undef(s[0], 7); b.addInstruction()->opReturnValue(r); } u = f.getFunction(); } return u->getFunction(); };
	std::function<void(std::vector<M>)> rec = [&](std::vector<M> c)
	{
		std::vector<M> rets{ s[0] }; if (form < 2) for (const M& r : { leaf(Op::OpTypeVoid), F32, I32 }) if (!(r == s[0])) rets.push_back(r);
		for (const M& ret : rets)
		{
			const bool ok = ret == s[0] && c.size() + 1 == s.size() && std::equal(c.begin(), c.end(), s.begin() + 1); std::string what = std::string(name) + " as " + types::show(ret) + " of " + types::show(s[0]) + "("; for (size_t k = 1; k < s.size(); ++k) what += types::show(s[k]) + " "; what += ") with"; for (auto& m : c) what += " " + types::show(m); Try y{ name, what };
			y.emit = [=](Mod& x) -> I { Function* f = callee(x); if (!f) return nullptr; I ty = x.type(ret); std::vector<I> p; for (size_t k = 0; k < c.size(); ++k) p.push_back(arg(x, c[k], k)); List<I> l(&x.al); for (I u : p) l.emplace_back(u); I i = x.add(); if (form == 1) return i->opFunctionCallDynamic(ty, f->getFunction(), l); if (form == 3) return i->callDynamic(f, l); if (form == 0) switch (p.size()) { case 0: return i->opFunctionCall(ty, f->getFunction()); case 1: return i->opFunctionCall(ty, f->getFunction(), p[0]); case 2: return i->opFunctionCall(ty, f->getFunction(), p[0], p[1]); case 3: return i->opFunctionCall(ty, f->getFunction(), p[0], p[1], p[2]); default: return i->opFunctionCall(ty, f->getFunction(), p[0], p[1], p[2], p[3]); } switch (p.size()) { case 0: return i->call(f); case 1: return i->call(f, p[0]); case 2: return i->call(f, p[0], p[1]); case 3: return i->call(f, p[0], p[1], p[2]); default: return i->call(f, p[0], p[1], p[2], p[3]); } };
			if (ok) { y.op = Op::OpFunctionCall; y.type = ret; y.operands = [=](Mod& x, const Table&) { std::vector<uint32_t> e{ id(callee(x)->getFunction()) }; for (size_t k = 0; k < c.size(); ++k) e.push_back(id(arg(x, c[k], k))); return e; }; } ts.push_back(std::move(y));
		}
		if (c.size() < mc::bound(3, 4)) for (size_t k = 0; k < (c.size() > 1 ? 6 : args.size()); ++k) { auto d = c; d.push_back(args[k]); rec(d); }
	};
	rec({}); judge(ts);
}

// values returned from functions
MC_SCENARIO(returned, 2)
{
	static const std::vector<M> ts0{ leaf(Op::OpTypeVoid), F32, I32, U32, B, vec(F32, 2), strct({ F32, I32 }), strct({ F32 }), arr(F32, 2), mat(F32, 2, 2) }; const unsigned ri = mc::choose(ts0.size(), "declared"), vi = mc::choose(ts0.size(), "value"); const M &r = ts0[ri], &v = ts0[vi]; if (v.op == Op::OpTypeVoid) return; mc::op("opReturnValue of %s from a function of %s", types::show(v).c_str(), types::show(r).c_str()); mc::state(mc::mix(ri, vi));
	Mod x; Function& f = x.m->addFunction(); f.setReturnType(x.type(r)); f.finalize(spv::FunctionControlMask::MaskNone, "g"); BasicBlock& b = f.addBasicBlock("b"); I u = x.undef(v), i = b.addInstruction(); i->opReturnValue(u); mc::checked(); const bool e = i->getOperation() == Op::OpReturnValue; MC_CHECK(e == (r == v), "opReturnValue: fit", "opReturnValue of %s from a function of %s is %s", types::show(v).c_str(), types::show(r).c_str(), e ? "accepted" : "rejected"); if (!e) { MC_CHECK(x.log.errors > 0, "opReturnValue: silent", "opReturnValue is rejected without any message"); if (r.op == Op::OpTypeVoid) b.addInstruction()->opReturn(); else { I w = x.undef(r); b.addInstruction()->opReturnValue(w); } }
	x.add()->opReturn(); const Words w = x.write(); const std::string err = validate(w); MC_CHECK(err.empty(), keep("opReturnValue: " + sig(err)), "opReturnValue: %s%s", err.c_str(), ir::trace(w).c_str()); mc::outcome(e ? "accepted" : "rejected");
}

// values merged after a selection
MC_SCENARIO(merged, 3)
{
	static const std::vector<M> ts0{ F32, I32, U32, vec(F32, 2), strct({ F32, I32 }), arr(F32, 2), ptr(SC::StorageBuffer, F32), B }; const unsigned form = mc::choose(2, "form"), ai = mc::choose(ts0.size(), "first"), bi = mc::choose(ts0.size(), "second"); const M &a = ts0[ai], &b = ts0[bi]; const char* name = form ? "opPhiDynamic" : "opPhi"; mc::op("%s of %s, %s", name, types::show(a).c_str(), types::show(b).c_str()); mc::state(mc::mix(mc::mix(form, ai), bi));
	for (unsigned odd = 0; odd < 7; ++odd) // which value is no result of a block
	{
		Mod x; BasicBlock &l = x.f->addBasicBlock("l"), &r = x.f->addBasicBlock("r"), &m = x.f->addBasicBlock("m"); I cond = x.undef(B, 5); x.bb->addInstruction()->opSelectionMerge(&m, spv::SelectionControlMask::MaskNone); x.bb->addInstruction()->opBranchConditional(cond, &l, &r);
		auto value = [&](BasicBlock& bb, const M& t) -> I { if (t.op == Op::OpTypePointer) { I v = x.var(t.sc, t.sub[0]); I i = bb.addInstruction(); return i->opAccessChain(v); } I u = x.undef(t); I i = bb.addInstruction(); return i->opCopyObject(u); };
		I u = value(l, a), v = value(r, b); l.addInstruction()->opBranch(&m); r.addInstruction()->opBranch(&m); if (odd == 1) u = x.undef(a); if (odd == 2) v = x.undef(b); if (odd == 3) v = x.type(b); if (odd == 4) v = &r.back(); if (odd == 5) u = &l.back(); if (odd == 6) u = x.type(a); if (!u || !v) return;
		List<I> ls(&x.al); ls.emplace_back(u); ls.emplace_back(v); I i = m.addInstruction(); const size_t before = x.log.errors; I res = form ? i->opPhiDynamic(ls) : i->opPhi(u, v); const size_t errors = x.log.errors - before; m.addInstruction()->opReturn(); const bool ok = a == b && odd == 0; static const char* const O[] = { "results", "an undefined value first", "an undefined value second", "a type second", "a branch second", "a branch first", "a type first" }; const std::string what = std::string(name) + " of " + types::show(a) + ", " + types::show(b) + " with " + O[odd];
		mc::checked(); MC_CHECK(res != nullptr, keep(std::string(name) + ": null"), "%s returns nothing", what.c_str()); if (!res) continue; MC_CHECK(res->isErrorInstr() == !ok, keep(std::string(name) + (ok ? ": rejected" : ": accepted")), "%s is %s", what.c_str(), ok ? "rejected though the types agree" : "accepted"); if (res->isErrorInstr()) MC_CHECK(errors > 0, keep(std::string(name) + ": silent"), "%s is rejected without any message", what.c_str());
		if (!ok && !res->isErrorInstr()) continue; const Words w = x.write(); const std::string e = validate(w); MC_CHECK(e.empty(), keep(std::string(name) + ": " + sig(e)), "%s: %s%s", what.c_str(), e.c_str(), ir::trace(w).c_str()); if (!ok) { mc::outcome("rejected"); continue; }
		const Bin bin = parse(w); const Table tab = decode(bin); const Ins* in = nullptr; for (auto& k : bin.ins) if (k.id == id(res)) in = &k; MC_CHECK(in && Op(in->op) == Op::OpPhi, "phi", "%s has no instruction", what.c_str()); if (!in) continue; auto ty = tab.type.find(in->type); MC_CHECK(ty != tab.type.end() && ty->second == a, keep(std::string(name) + ": result type"), "%s has another result type", what.c_str()); const std::vector<uint32_t> got(in->w.begin() + 3, in->w.end()), exp{ id(u), id(l.getLabel()), id(v), id(r.getLabel()) }; MC_CHECK(got == exp, keep(std::string(name) + ": operands"), "%s has other operands", what.c_str()); mc::outcome("merged");
	}
}

// the variants of looking up sub types agree
MC_SCENARIO(sub_types, 1)
{
	const unsigned ti = mc::choose(domain().size(), "type"); const M& t = domain()[ti]; mc::op("sub types of %s", types::show(t).c_str()); mc::state(ti); track::Allocator al; Type q(&al); plain(q, t); std::vector<Path> ps; paths(t, {}, ps);
	for (const Path& p : ps)
	{
		List<unsigned int> l(&al); for (unsigned i : p) l.emplace_back(i); auto a = q.getSubType(l); mc::checked(); if (p.empty()) continue;
		auto b = p.size() == 1 ? q.getSubType(p[0]) : p.size() == 2 ? q.getSubType(p[0], p[1]) : p.size() == 3 ? q.getSubType(p[0], p[1], p[2]) : p.size() == 4 ? q.getSubType(p[0], p[1], p[2], p[3]) : p.size() == 5 ? q.getSubType(p[0], p[1], p[2], p[3], p[4]) : q.getSubType(p[0], p[1], p[2], p[3], p[4], p[5]);
		MC_CHECK(a == b, "variants", "the sub type of %s at %s differs between the variants", types::show(t).c_str(), show(p).c_str()); if (walk(t, p)) { MC_CHECK(b != nullptr && differs(*b, *walk(t, p)).empty(), "sub-type", "the sub type of %s at %s is another one", types::show(t).c_str(), show(p).c_str()); }
	}
	mc::outcome("agree");
}

// many members, deep nesting, long lists of constituents and arguments: right, and wrong in one place
MC_SCENARIO(large, 2)
{
	static const unsigned SIZES[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254 }; static const char* kinds[] = { "opAccessChain(list) into members", "opAccessChain(list) into nested structs", "opCompositeExtractDynamic of members", "opCompositeExtractDynamic of nested structs", "opCompositeConstructDynamic of a struct", "opCompositeConstructDynamic of an array", "callDynamic", "opFunctionCallDynamic", "opAccessChain(list) into nested arrays" };
	const unsigned n = SIZES[mc::choose(unsigned(sizeof SIZES / sizeof *SIZES), "number")], kind = mc::choose(9, "kind"); const char* name = kinds[kind]; if ((kind == 8 || kind == 3 || kind == 1) && n > 129) return; mc::op("%u, %s", n, name); mc::state(mc::mix(n, kind)); std::vector<Try> ts; const std::vector<unsigned> places{ 0, 1, n / 3, n / 2, n - 2, n - 1 };
	if (kind < 4 || kind == 8)
	{
		M t = F32; if (kind == 0 || kind == 2) { std::vector<M> m; for (unsigned i = 0; i < n; ++i) m.push_back(i % 3 == 0 ? F32 : i % 3 == 1 ? I32 : vec(F32, 2)); t = strct(m); } else for (unsigned i = 0; i < n; ++i) t = kind == 8 ? arr(t, 2 + i % 2) : i % 2 ? strct({ t, I32 }) : strct({ t });
		std::vector<Path> ps; if (kind == 0 || kind == 2) { for (unsigned i : places) ps.push_back({ i }); for (unsigned i : { n, n + 1, ~0u }) ps.push_back({ i }); ps.push_back({ n / 3, 0 }); } else { Path all(n, 0); ps.push_back(all); for (unsigned i : places) { Path p = all; p[i] = 5; ps.push_back(p); ps.push_back(Path(all.begin(), all.begin() + i + 1)); } all.push_back(0); ps.push_back(all); }
		const bool chain = kind < 2 || kind == 8; for (const Path& p : ps)
		{
			const M* r = walk(t, p); Try y{ name, std::string(name) + " of " + std::to_string(n) + " with " + std::to_string(p.size()) + " indices, the last one " + std::to_string(p.back()) }; y.emit = [=](Mod& x) -> I { I base = chain ? x.var(SC::Private, t) : x.undef(t); I i = x.add(); return chain ? i->opAccessChain(base, list(x, p)) : i->opCompositeExtractDynamic(base, list(x, p)); };
			if (r) { y.op = chain ? Op::OpAccessChain : Op::OpCompositeExtract; y.type = chain ? ptr(SC::Private, *r) : *r; y.operands = [=](Mod& x, const Table& tab) { std::vector<uint32_t> e{ id(chain ? x.var(SC::Private, t) : x.undef(t)) }; if (!chain) e.insert(e.end(), p.begin(), p.end()); else { std::map<unsigned, uint32_t> known; for (auto& k : tab.con) if (k.second.type == U32 && k.second.data.size() == 1) known[k.second.data[0]] = k.first; for (unsigned i : p) e.push_back(known[i]); } return e; }; }
			ts.push_back(std::move(y));
		}
		judge(ts); return;
	}
	std::vector<M> parts; for (unsigned i = 0; i < n; ++i) parts.push_back(kind == 5 || i % 3 == 0 ? F32 : i % 3 == 1 ? I32 : vec(F32, 2)); const M t = kind == 5 ? arr(F32, n) : strct(parts);
	std::vector<std::pair<std::vector<M>, std::string>> lists{ { parts, "right" } }; for (unsigned i : places) { auto w = parts; w[i] = F64; lists.push_back({ w, "wrong at " + std::to_string(i) }); w = parts; w.erase(w.begin() + i); lists.push_back({ w, "without " + std::to_string(i) }); } { auto w = parts; w.push_back(F32); lists.push_back({ w, "one too many" }); w = parts; w.insert(w.end(), parts.begin(), parts.end()); lists.push_back({ w, "twice" }); }
	auto callee = [=](Mod& x) -> Function* { I& u = x.undefs["callee"]; if (!u) { Function& f = x.m->addFunction(); f.setReturnType(x.type(F32)); for (const M& m : parts) f.addParameters(x.type(m)); f.finalize(spv::FunctionControlMask::MaskNone, "callee"); BasicBlock& b = f.addBasicBlock("b"); I r = x.undef(F32, 7); b.addInstruction()->opReturnValue(r); u = f.getFunction(); } return u->getFunction(); };
	for (auto& [c, how] : lists)
	{
		const std::vector<M> l = c; const bool ok = l == parts; Try y{ name, std::string(name) + " of " + std::to_string(n) + ", " + how }; auto values = [=](Mod& x) { std::vector<I> v; for (size_t k = 0; k < l.size(); ++k) v.push_back(x.undef(l[k], unsigned(k % 5))); return v; };
		y.emit = [=](Mod& x) -> I { I ty = x.type(kind < 6 ? t : F32); Function* f = kind < 6 ? nullptr : callee(x); List<I> q(&x.al); for (I u : values(x)) q.emplace_back(u); I i = x.add(); return kind < 6 ? i->opCompositeConstructDynamic(ty, q) : kind == 6 ? i->callDynamic(f, q) : i->opFunctionCallDynamic(ty, f->getFunction(), q); };
		if (ok) { y.op = kind < 6 ? Op::OpCompositeConstruct : Op::OpFunctionCall; y.type = kind < 6 ? t : F32; y.operands = [=](Mod& x, const Table&) { std::vector<uint32_t> e; if (kind >= 6) e.push_back(id(callee(x)->getFunction())); for (I u : values(x)) e.push_back(id(u)); return e; }; } ts.push_back(std::move(y));
	}
	judge(ts);
}
