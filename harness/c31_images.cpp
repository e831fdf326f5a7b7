// C31: image operations are emitted with the operands and result type their kind requires, or reported.
#include "ops.h"

namespace
{
	using Im = spv::ImageOperandsMask; using F = Flag<Im>; using Dim = spv::Dim; using Acc = SamplerImageAccess; using Fmt = spv::ImageFormat;
	const M VOID = leaf(Op::OpTypeVoid), F16 = leaf(Op::OpTypeFloat, 16), I16 = leaf(Op::OpTypeInt, 16, true), U64 = leaf(Op::OpTypeInt, 64), SMP = leaf(Op::OpTypeSampler);
	bool kernel = false;
	void setup(Module& m)
	{
		using C = spv::Capability; m.setSpvVersion(1, 5);
		if (kernel) { for (C c : { C::Linkage, C::Kernel, C::Addresses, C::ImageBasic, C::Image1D, C::Sampled1D, C::ImageBuffer, C::SampledBuffer, C::Float16, C::Float64 }) m.addCapability(c); m.setMemoryModel(spv::AddressingModel::Physical64, spv::MemoryModel::OpenCL); return; }
		for (C c : { C::Linkage, C::Shader, C::Int16, C::Int64, C::Float16, C::Float64, C::Sampled1D, C::Image1D, C::SampledCubeArray, C::ImageCubeArray, C::SampledRect, C::ImageRect, C::SampledBuffer, C::ImageBuffer, C::ImageMSArray, C::StorageImageMultisample, C::InputAttachment, C::ImageQuery, C::ImageGatherExtended, C::MinLod, C::StorageImageReadWithoutFormat, C::StorageImageWriteWithoutFormat, C::StorageImageExtendedFormats, C::DerivativeControl, C::VulkanMemoryModel, C::VulkanMemoryModelDeviceScope }) m.addCapability(c);
		m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::Vulkan);
	}
	// image types the rules allow to declare
	const std::vector<M>& images()
	{
		static const std::vector<M> v = []
		{
			std::vector<M> all; for (Dim d : { Dim::Dim1D, Dim::Dim2D, Dim::Dim3D, Dim::Cube, Dim::Rect, Dim::Buffer, Dim::SubpassData }) for (bool arr : { false, true }) for (bool ms : { false, true }) for (Acc a : { Acc::Sampled, Acc::Storage, Acc::Unknown })
			{
				if (ms && d != Dim::Dim2D && d != Dim::SubpassData) continue; if (arr && (d == Dim::Dim3D || d == Dim::Rect || d == Dim::Buffer)) continue; if (a == Acc::Unknown && d != Dim::Dim2D && d != Dim::Buffer && !mc::thorough()) continue;
				const bool more = mc::thorough() || d == Dim::Dim2D || (d == Dim::Cube && !arr) || (d == Dim::Buffer); all.push_back(image(F32, d, 0, arr, ms, a)); if (more) { all.push_back(image(I32, d, 0, arr, ms, a)); all.push_back(image(U32, d, 1, arr, ms, a)); if (d == Dim::Dim2D) all.push_back(image(VOID, d, 0, arr, ms, a)); }
				if (a == Acc::Storage && d != Dim::SubpassData && more) { all.push_back(image(F32, d, 0, arr, ms, a, Fmt::Rgba8)); all.push_back(image(F32, d, 0, arr, ms, a, Fmt::R32f)); all.push_back(image(F32, d, 0, arr, ms, a, Fmt::Rg16f)); all.push_back(image(I32, d, 0, arr, ms, a, Fmt::R32i)); all.push_back(image(U32, d, 0, arr, ms, a, Fmt::Rgba32ui)); all.push_back(image(I32, d, 0, arr, ms, a, Fmt::Rg8i)); }
			}
			std::vector<M> r; for (const M& t : all) { Mod x; x.undef(t); x.add()->opReturn(); const std::string e = validate(x.write()); if (e.empty()) r.push_back(t); } return r;
		}(); return v;
	}
	bool one(const M& t) { return t.scalar() || t.isV(); } const M& comp(const M& t) { return t.isV() ? t.sub[0] : t; } unsigned len(const M& t) { return t.isV() ? t.w : 1; }
	bool fl(const M& t) { return one(t) && comp(t).isF(); } bool in(const M& t) { return one(t) && comp(t).isI(); }
	unsigned planes(Dim d) { switch (d) { case Dim::Dim1D: case Dim::Buffer: return 1; case Dim::Dim3D: case Dim::Cube: return 3; default: return 2; } }
	unsigned extent(Dim d) { return d == Dim::Cube ? 2 : planes(d); }
	bool basic(Dim d) { return d == Dim::Dim1D || d == Dim::Dim2D || d == Dim::Dim3D || d == Dim::Cube; }
	unsigned channels(Fmt f) { switch (f) { case Fmt::R32f: case Fmt::R32i: return 1; case Fmt::Rg16f: case Fmt::Rg8i: return 2; default: return 4; } }
	M vecOr(const M& s, unsigned n) { return n == 1 ? s : vec(s, n); }
	enum Verdict { No, Yes, Open };
	Verdict both(Verdict a, Verdict b) { return a == No || b == No ? No : a == Open || b == Open ? Open : Yes; }
	// the operations
	enum Kind { Implicit = 1, Level = 2, Grad = 4, Proj = 8, Dref = 16, Fetch = 32, Gather = 64, Read = 128, Write = 256 };
	struct D { const char* name; Op op; unsigned kind; };
	const D ds[] = {
		{ "opImageSampleImplictLod", Op::OpImageSampleImplicitLod, Implicit }, { "opImageSampleExplicitLodLevel", Op::OpImageSampleExplicitLod, Level }, { "opImageSampleExplicitLodGrad", Op::OpImageSampleExplicitLod, Grad },
		{ "opImageSampleProjImplictLod", Op::OpImageSampleProjImplicitLod, Implicit | Proj }, { "opImageSampleProjExplicitLodLevel", Op::OpImageSampleProjExplicitLod, Level | Proj }, { "opImageSampleProjExplicitLodGrad", Op::OpImageSampleProjExplicitLod, Grad | Proj },
		{ "opImageSampleDrefImplictLod", Op::OpImageSampleDrefImplicitLod, Implicit | Dref }, { "opImageSampleDrefExplicitLodLevel", Op::OpImageSampleDrefExplicitLod, Level | Dref }, { "opImageSampleDrefExplicitLodGrad", Op::OpImageSampleDrefExplicitLod, Grad | Dref },
		{ "opImageSampleProjDrefImplictLod", Op::OpImageSampleProjDrefImplicitLod, Implicit | Proj | Dref }, { "opImageSampleProjDrefExplicitLodLevel", Op::OpImageSampleProjDrefExplicitLod, Level | Proj | Dref }, { "opImageSampleProjDrefExplicitLodGrad", Op::OpImageSampleProjDrefExplicitLod, Grad | Proj | Dref },
		{ "opImageFetch", Op::OpImageFetch, Fetch }, { "opImageGather", Op::OpImageGather, Gather }, { "opImageDrefGather", Op::OpImageDrefGather, Gather | Dref }, { "opImageRead", Op::OpImageRead, Read }, { "opImageWrite", Op::OpImageWrite, Write } };
	const unsigned sampling = Implicit | Level | Grad; const unsigned loads = Fetch | Read | Write;
	// operands of an operation: undefined or null
	struct A { M t; bool con = false; bool operator==(const A& o) const { return t == o.t && con == o.con; } };
	struct Set { unsigned mask = 0; std::vector<A> ops; };
	const std::vector<Set>& sets()
	{
		static const std::vector<Set> v = []
		{
			std::vector<Set> r{ {} }; auto U = [](Im m) { return unsigned(m); }; const unsigned Bias = U(Im::Bias), Lod = U(Im::Lod), Gr = U(Im::Grad), CO = U(Im::ConstOffset), Off = U(Im::Offset), COs = U(Im::ConstOffsets), Smp = U(Im::Sample), Min = U(Im::MinLod), Av = U(Im::MakeTexelAvailableKHR), Vis = U(Im::MakeTexelVisibleKHR), NP = U(Im::NonPrivateTexelKHR), Vol = U(Im::VolatileTexelKHR), SX = U(Im::SignExtend), ZX = U(Im::ZeroExtend);
			auto fv = [](unsigned n) { return vecOr(F32, n); }; auto iv = [](unsigned n) { return vecOr(I32, n); }; auto add = [&](unsigned m, std::vector<A> o) { r.push_back({ m, std::move(o) }); };
			for (unsigned one : { Bias, Lod, Min, Smp }) { for (const M& t : { F32, I32, U32, F16, F64, fv(2), iv(2), B, strct({ F32 }) }) add(one, { { t } }); add(one, {}); add(one, { { F32 }, { F32 } }); add(one, { { I32, true } }); }
			for (const M& t : { F32, fv(2), fv(3), fv(4), I32, iv(2), iv(3), vec(F16, 2), strct({ F32 }) }) { add(Gr, { { t }, { t } }); add(Gr, { { t } }); for (const M& u : { F32, fv(2), fv(3), iv(2) }) { if (!(t == u)) add(Gr, { { t }, { u } }); } add(Gr, { { t }, { t }, { t } }); }
			for (unsigned o : { CO, Off }) for (const M& t : { I32, U32, iv(2), iv(3), iv(4), vec(U32, 2), F32, fv(2), vec(I16, 2) }) for (bool con : { false, true }) { add(o, { { t, con } }); if (t.isV() && t.w == 2 && t.sub[0] == I32) { add(o, { { t, con }, { t, con } }); add(o | Bias, { { F32 }, { t, con } }); add(o | Lod, { { F32 }, { t, con } }); add(o | Lod, { { I32 }, { t, con } }); add(o | Lod, { { t, con }, { F32 } }); add(o | Lod, { { F32 } }); add(o | Min, { { t, con }, { F32 } }); add(o | Min, { { F32 }, { t, con } }); add(o | Smp, { { t, con }, { I32 } }); for (unsigned k : { 1u, 2u, 3u }) { add(o | Gr, { { fv(k) }, { fv(k) }, { t, con } }); add(o | Gr | Min, { { fv(k) }, { fv(k) }, { t, con }, { F32 } }); } add(o | Bias | Min, { { F32 }, { t, con }, { F32 } }); } }
			add(CO, {}); add(Off, {}); add(CO | Off, { { iv(2), true }, { iv(2) } }); add(Off | COs, { { iv(2) }, { wrap(Op::OpTypeArray, iv(2), 4), true } });
			for (const M& e : { iv(2), vec(U32, 2), fv(2), iv(3), I32 }) for (unsigned n : { 4u, 3u, 5u }) for (bool con : { true, false }) if (n == 4 || e == iv(2)) add(COs, { { wrap(Op::OpTypeArray, e, n), con } }); add(COs, { { iv(2), true } }); add(COs, {});
			add(Bias | Min, { { F32 }, { F32 } }); add(Bias | Min, { { F32 } }); add(Lod | Min, { { F32 }, { F32 } }); add(Bias | Lod, { { F32 }, { F32 } }); add(Lod | Smp, { { I32 }, { I32 } });
			for (unsigned k : { 1u, 2u, 3u }) { add(Gr | Min, { { fv(k) }, { fv(k) }, { F32 } }); add(Lod | Gr, { { F32 }, { fv(k) }, { fv(k) } }); add(Gr | Min, { { fv(k) }, { fv(k) } }); }
			for (unsigned b : { NP, Vol, SX, ZX, NP | Vol }) { add(b, {}); add(b | Smp, { { I32 } }); add(b | Bias, { { F32 } }); add(b | Lod, { { F32 } }); add(b, { { F32 } }); }
			for (unsigned b : { Av, Vis }) for (unsigned np : { NP, 0u }) { add(b | np, { { U32, true } }); add(b | np, { { U32 } }); add(b | np, { { F32, true } }); add(b | np, {}); add(b | np | Smp, { { I32 }, { U32, true } }); }
			return r;
		}(); return v;
	}
	std::string show(const Set& s) { std::string r = "mask " + std::to_string(s.mask); for (auto& a : s.ops) r += (a.con ? " constant " : " ") + types::show(a.t); return r; }
	Verdict offset(const M& im, const A& a) { if (im.dim == Dim::Cube || !in(a.t) || len(a.t) != planes(im.dim)) return No; return comp(a.t).w == 32 ? Yes : Open; }
	Verdict number(const A& a, bool flt) { if (!a.t.scalar() || a.t.isB() || (flt ? !a.t.isF() : !a.t.isI())) return No; return a.t.w == 32 ? Yes : Open; }
	Verdict operands(const D& d, const M& im, const Set& s)
	{
		auto has = [&](Im m) { return (s.mask & unsigned(m)) != 0; }; size_t at = 0; Verdict v = Yes; auto next = [&]() -> const A* { return at < s.ops.size() ? &s.ops[at++] : nullptr; }; auto need = [&](Verdict w) { v = both(v, w); };
		if ((d.kind & (Level | Grad)) && !has(Im::Lod) && !has(Im::Grad)) return No; if (has(Im::Lod) && has(Im::Grad)) return No; if (int(has(Im::ConstOffset)) + int(has(Im::Offset)) + int(has(Im::ConstOffsets)) > 1) return No;
		const bool level = basic(im.dim) && !im.ms;
		if (has(Im::Bias)) { const A* a = next(); if (!a) return No; need(d.kind & Implicit && level ? Yes : No); need(number(*a, true)); }
		if (has(Im::Lod)) { const A* a = next(); if (!a) return No; need(d.kind & (Level | Grad | Fetch) ? (level ? Yes : No) : d.kind & (Read | Write | Gather) ? Open : No); if (d.kind & (Level | Grad | Fetch)) need(number(*a, !(d.kind & Fetch))); }
		if (has(Im::Grad)) { const A* a = next(); const A* b = a ? next() : nullptr; if (!b) return No; need(d.kind & (Level | Grad) && !im.ms ? Yes : No); for (auto* g : { a, b }) { if (!fl(g->t) || len(g->t) != planes(im.dim)) return No; if (comp(g->t).w != 32) need(Open); } }
		if (has(Im::ConstOffset)) { const A* a = next(); if (!a || !a->con) return No; need(offset(im, *a)); if (d.kind & (Read | Write)) need(Open); }
		if (has(Im::Offset)) { const A* a = next(); if (!a) return No; need(offset(im, *a)); if (d.kind & (Read | Write)) need(Open); }
		if (has(Im::ConstOffsets)) { const A* a = next(); if (!a || !a->con || !(d.kind & Gather) || im.dim == Dim::Cube || a->t.op != Op::OpTypeArray || a->t.w != 4) return No; const M& e = a->t.sub[0]; if (!e.isV() || e.w != 2 || !e.sub[0].isI()) return No; }
		if (has(Im::Sample)) { const A* a = next(); if (!a || !(d.kind & loads) || !im.ms) return No; need(number(*a, false)); } else if (im.ms && (d.kind & loads)) return No;
		if (has(Im::MinLod)) { const A* a = next(); if (!a) return No; need((d.kind & Implicit || (d.kind & (Level | Grad) && has(Im::Grad))) && level ? Yes : No); need(number(*a, true)); }
		if (has(Im::MakeTexelAvailableKHR)) { const A* a = next(); if (!a || !has(Im::NonPrivateTexelKHR) || !(d.kind & Write) || !a->t.isI()) return No; need(a->con ? Yes : Open); if (!(a->t == U32)) need(Open); }
		if (has(Im::MakeTexelVisibleKHR)) { const A* a = next(); if (!a || !has(Im::NonPrivateTexelKHR) || !(d.kind & Read) || !a->t.isI()) return No; need(a->con ? Yes : Open); if (!(a->t == U32)) need(Open); }
		if (has(Im::NonPrivateTexelKHR) || has(Im::VolatileTexelKHR)) need(d.kind & loads ? Yes : Open);
		if (has(Im::SignExtend) || has(Im::ZeroExtend)) need(Open);
		return at == s.ops.size() ? v : No;
	}
	Verdict coordinate(const D& d, const M& im, const M& c)
	{
		if (!one(c) || comp(c).isB()) return No; const bool cubeTexel = im.dim == Dim::Cube && (d.kind & (Read | Write)); const unsigned n = cubeTexel ? 3 : planes(im.dim) + (im.arr ? 1 : 0) + (d.kind & Proj ? 1 : 0); if (len(c) < n) return No;
		if (d.kind & loads) { if (!comp(c).isI()) return No; } else if (!comp(c).isF()) return No;
		return comp(c).w == 32 ? Yes : Open;
	}
	Verdict target(const D& d, const M& t)
	{
		const bool loads_ = d.kind & loads; if (t.op != (loads_ ? Op::OpTypeImage : Op::OpTypeSampledImage)) return No; const M& im = loads_ ? t : t.sub[0];
		if (d.kind & sampling) { if (im.ms || im.dim == Dim::Buffer || im.dim == Dim::SubpassData) return No; if ((d.kind & Proj) && (im.arr || im.dim == Dim::Cube)) return No; if ((d.kind & Dref) && im.dim == Dim::Dim3D) return Open; return Yes; }
		if (d.kind & Gather) return !im.ms && (im.dim == Dim::Dim2D || im.dim == Dim::Cube || im.dim == Dim::Rect) ? Yes : No;
		if (d.kind & Fetch) return im.acc == Acc::Sampled && im.dim != Dim::Cube ? Yes : No;
		if (d.kind & Read) return im.acc == Acc::Sampled ? No : im.acc == Acc::Unknown ? Open : Yes;
		return im.acc == Acc::Sampled || im.dim == Dim::SubpassData ? No : im.acc == Acc::Unknown ? Open : Yes;
	}
	// depth reference, component or texel
	bool hasThird(const D& d) { return d.kind & (Dref | Gather | Write); }
	Verdict third(const D& d, const M& im, const A& a)
	{
		if (d.kind & Dref) return a.t == F32 ? Yes : No; if (d.kind & Gather) return a.t.isI() && a.t.w == 32 ? Yes : No;
		if (!one(a.t) || a.t.isB()) return No; if (im.sub[0].op == Op::OpTypeVoid) return Open; if (!(comp(a.t) == im.sub[0])) return No; return len(a.t) >= (im.fmt == Fmt::Unknown ? 1 : channels(im.fmt)) ? Yes : Open;
	}
	M result(const D& d, const M& im) { const M s = im.sub[0].op == Op::OpTypeVoid ? F32 : im.sub[0]; if (d.kind & Read) return vecOr(s, channels(im.fmt)); if ((d.kind & Dref) && !(d.kind & Gather)) return s; return vec(s, 4); }
	template<class... O> I call(I r, const D& d, I t, I c, I x, F m, O... o)
	{
		switch (d.kind)
		{
		case Implicit: return r->opImageSampleImplictLod(t, c, m, o...); case Implicit | Proj: return r->opImageSampleProjImplictLod(t, c, m, o...); case Implicit | Dref: return r->opImageSampleDrefImplictLod(t, c, x, m, o...); case Implicit | Proj | Dref: return r->opImageSampleProjDrefImplictLod(t, c, x, m, o...);
		case Fetch: return r->opImageFetch(t, c, m, o...); case Gather: return r->opImageGather(t, c, x, m, o...); case Gather | Dref: return r->opImageDrefGather(t, c, x, m, o...); case Read: return r->opImageRead(t, c, m, o...); case Write: return r->opImageWrite(t, c, x, m, o...); default: return nullptr;
		}
	}
	template<class... O> I callLevel(I r, const D& d, I t, I c, I x, F m, I l, O... o)
	{
		switch (d.kind)
		{
		case Level: return r->opImageSampleExplicitLodLevel(t, c, l, m, o...); case Level | Proj: return r->opImageSampleProjExplicitLodLevel(t, c, l, m, o...); case Level | Dref: return r->opImageSampleDrefExplicitLodLevel(t, c, x, l, m, o...); case Level | Proj | Dref: return r->opImageSampleProjDrefExplicitLodLevel(t, c, x, l, m, o...);
		case Grad: return r->opImageSampleExplicitLodGrad(t, c, l, m, o...); case Grad | Proj: return r->opImageSampleProjExplicitLodGrad(t, c, l, m, o...); case Grad | Dref: return r->opImageSampleDrefExplicitLodGrad(t, c, x, l, m, o...); case Grad | Proj | Dref: return r->opImageSampleProjDrefExplicitLodGrad(t, c, x, l, m, o...); default: return nullptr;
		}
	}
	I any(Mod& x, const A& a, unsigned n) { return a.con ? x.null(a.t) : x.undef(a.t, n); }
	I emit(Mod& x, const D& d, const M& t, const M& c, const A& th, const Set& s)
	{
		I ti = x.undef(t), ci = x.undef(c, 1), xi = hasThird(d) ? any(x, th, 2) : nullptr, o[5]{}; for (size_t k = 0; k < s.ops.size(); ++k) o[k] = any(x, s.ops[k], 3 + unsigned(k)); I r = x.add(); const F m = static_cast<Im>(s.mask);
		if (d.kind & (Level | Grad)) { const F rest = static_cast<Im>(s.mask & ~unsigned(d.kind & Level ? Im::Lod : Im::Grad)); switch (s.ops.size()) { case 1: return callLevel(r, d, ti, ci, xi, rest, o[0]); case 2: return callLevel(r, d, ti, ci, xi, rest, o[0], o[1]); case 3: return callLevel(r, d, ti, ci, xi, rest, o[0], o[1], o[2]); case 4: return callLevel(r, d, ti, ci, xi, rest, o[0], o[1], o[2], o[3]); default: return nullptr; } }
		switch (s.ops.size()) { case 0: return call(r, d, ti, ci, xi, m); case 1: return call(r, d, ti, ci, xi, m, o[0]); case 2: return call(r, d, ti, ci, xi, m, o[0], o[1]); case 3: return call(r, d, ti, ci, xi, m, o[0], o[1], o[2]); case 4: return call(r, d, ti, ci, xi, m, o[0], o[1], o[2], o[3]); default: return nullptr; }
	}
	bool callable(const D& d, const Set& s)
	{
		const bool lod = s.mask & unsigned(Im::Lod), grad = s.mask & unsigned(Im::Grad); if (d.kind & Level) return lod && !s.ops.empty() && !(s.mask & unsigned(Im::Bias)); if (d.kind & Grad) return grad && !lod && !s.ops.empty() && !(s.mask & unsigned(Im::Bias)); return s.mask != 0 || s.ops.empty();
	}
	Try attempt(const D& d, const M& t, const M& c, const A& th, const Set& s)
	{
		Try y{ d.name, std::string(d.name) + " " + types::show(t) + " at " + types::show(c) + (hasThird(d) ? " with " + types::show(th.t) : "") + " " + show(s) }; const D* dp = &d; y.soft = true; y.statement = d.kind & Write; y.emit = [=](Mod& x) { return emit(x, *dp, t, c, th, s); }; const M* im = t.op == Op::OpTypeSampledImage ? &t.sub[0] : &t; Verdict v = target(d, t); if (v != No) v = both(v, coordinate(d, *im, c)); if (v != No && hasThird(d)) v = both(v, third(d, *im, th)); if (v != No) v = both(v, operands(d, *im, s));
		if (v == No) return y; y.free = v == Open; y.op = d.op; y.type = (d.kind & Write) ? VOID : result(d, *im); if (d.kind & Read) y.other = vec(im->sub[0].op == Op::OpTypeVoid ? F32 : im->sub[0], 4);
		y.operands = [=](Mod& x, const Table&) { std::vector<uint32_t> e{ id(x.undef(t)), id(x.undef(c, 1)) }; if (hasThird(*dp)) e.push_back(id(any(x, th, 2))); if (s.mask) e.push_back(s.mask); for (size_t k = 0; k < s.ops.size(); ++k) e.push_back(id(any(x, s.ops[k], 3 + unsigned(k)))); return e; };
		return y;
	}
	const std::vector<M>& coords()
	{
		static const std::vector<M> v = [] { std::vector<M> r; for (const M& s : { F32, I32, U32, F16, F64, U64, B }) for (unsigned n : { 1u, 2u, 3u, 4u }) if (n == 3 || s.w == 32) r.push_back(vecOr(s, n)); r.push_back(strct({ F32 })); r.push_back(mat(F32, 4, 4)); r.push_back(SMP); return r; }(); return v;
	}
	const std::vector<A>& thirds()
	{
		static const std::vector<A> v{ { F32 }, { I32, true }, { U32, true }, { I32 }, { F64 }, { F16 }, { vec(F32, 2) }, { vec(F32, 3) }, { vec(F32, 4) }, { vec(I32, 2) }, { vec(I32, 4) }, { U32 }, { vec(U32, 4) }, { I16 }, { B }, { vec(F64, 4) }, { vec(I16, 4) }, { strct({ F32 }) } }; return v;
	}
	// what fits the operation on that image
	M fitting(const D& d, const M& im) { const M s = d.kind & loads ? I32 : F32; const bool cubeTexel = im.dim == Dim::Cube && (d.kind & (Read | Write)); return vecOr(s, std::min(4u, cubeTexel ? 3 : planes(im.dim) + (im.arr ? 1 : 0) + (d.kind & Proj ? 1 : 0))); }
	A fittingThird(const D& d, const M& im) { if (d.kind & Dref) return { F32 }; if (d.kind & Gather) return { I32, true }; return { vec(im.sub[0].op == Op::OpTypeVoid ? F32 : im.sub[0], 4) }; }
	std::vector<Set> fittingSets(const D& d, const M& im) { std::vector<Set> r; for (const Set& s : sets()) if (callable(d, s) && operands(d, im, s) == Yes) { r.push_back(s); if (r.size() == 2) break; } if (r.empty()) for (const Set& s : sets()) if (callable(d, s)) { r.push_back(s); break; } return r; }
	M withImage(const D& d, const M& im) { return d.kind & loads ? im : wrap(Op::OpTypeSampledImage, im); }
	const std::vector<D>& all() { static const std::vector<D> v(std::begin(ds), std::end(ds)); return v; }
	// the validator takes no result at all for these
	bool odd(const D& d, const M& im) { return im.sub[0].op == Op::OpTypeVoid && (d.kind & Dref); }
	bool sampled(const M& im) { return im.acc != Acc::Storage && im.dim != Dim::SubpassData && im.dim != Dim::Buffer; }
}
// which images an operation takes, at which coordinates and with what
MC_SCENARIO(coordinates, 2)
{
	const unsigned di = mc::choose(all().size(), "helper"), ii = mc::choose(images().size(), "image"); const D& d = ds[di]; const M& im = images()[ii]; mc::op("%s of %s", d.name, types::show(im).c_str()); mc::state(mc::mix(di, ii)); std::vector<Try> ts; if (odd(d, im)) { mc::outcome("no sampled type"); return; } std::vector<M> targets{ im }; if (sampled(im)) targets.push_back(wrap(Op::OpTypeSampledImage, im));
	for (const M& t : targets) for (const Set& s : fittingSets(d, im)) { for (const M& c : coords()) ts.push_back(attempt(d, t, c, fittingThird(d, im), s)); if (hasThird(d)) for (const A& a : thirds()) ts.push_back(attempt(d, t, fitting(d, im), a, s)); }
	judge(ts);
}
// which image operands an operation takes on which images
MC_SCENARIO(image_operands, 2)
{
	const unsigned di = mc::choose(all().size(), "helper"), ii = mc::choose(images().size(), "image"); const D& d = ds[di]; const M& im = images()[ii]; mc::op("%s of %s", d.name, types::show(im).c_str()); mc::state(mc::mix(di, ii)); std::vector<Try> ts; if (odd(d, im) || (!(d.kind & loads) && !sampled(im))) { mc::outcome("no sampled image"); return; }
	std::vector<M> cs{ fitting(d, im) }; if (cs[0].isV() && cs[0].w < 4 && mc::thorough()) cs.push_back(vec(cs[0].sub[0], 4)); for (const M& c : cs) for (const Set& s : sets()) if (callable(d, s)) ts.push_back(attempt(d, withImage(d, im), c, fittingThird(d, im), s)); judge(ts);
}
// operations that take no image operands, and other things than images
MC_SCENARIO(queries, 2)
{
	static const std::vector<M> others{ F32, vec(F32, 4), I32, SMP, strct({ F32 }), mat(F32, 2, 2), wrap(Op::OpTypeArray, F32, 2) };
	static const char* const names[] = { "opSampledImage", "opImage", "opImageQuerySizeLod", "opImageQuerySize", "opImageQueryLod", "opImageQueryLevels", "opImageQuerySamples", "opImageQueryFormat", "opImageQueryOrder" };
	const unsigned q = mc::choose(9, "operation"), ti = mc::choose(images().size() + others.size(), "operand"); const M t = ti < images().size() ? images()[ti] : others[ti - images().size()]; const bool im = ti < images().size(); mc::op("%s of %s", names[q], types::show(t).c_str()); mc::state(mc::mix(q, ti)); std::vector<Try> ts; const bool sampleable = im && sampled(t);
	auto add = [&](const M& target, const std::optional<M>& second, Verdict v, Op op, const M& ty)
	{
		Try y{ names[q], std::string(names[q]) + " " + types::show(target) + (second ? " with " + types::show(*second) : "") }; y.soft = true; y.emit = [=](Mod& x) -> I { I a = x.undef(target), b = second ? x.undef(*second, 1) : nullptr, r = x.add(); switch (q) { case 0: return r->opSampledImage(a, b); case 1: return r->opImage(a); case 2: return r->opImageQuerySizeLod(a, b); case 3: return r->opImageQuerySize(a); case 4: return r->opImageQueryLod(a, b); case 5: return r->opImageQueryLevels(a); case 6: return r->opImageQuerySamples(a); case 7: return r->opImageQueryFormat(a); default: return r->opImageQueryOrder(a); } };
		if (v != No) { y.op = op; y.free = v == Open; y.type = ty; if (q >= 2 && q != 4) { y.other = ty; y.other->base().sign = true; } y.operands = [=](Mod& x, const Table&) { std::vector<uint32_t> e{ id(x.undef(target)) }; if (second) e.push_back(id(x.undef(*second, 1))); return e; }; } ts.push_back(std::move(y));
	};
	std::vector<M> targets{ t }; if (sampleable) targets.push_back(wrap(Op::OpTypeSampledImage, t));
	for (const M& g : targets)
	{
		const bool isI = im && g.op == Op::OpTypeImage, isS = g.op == Op::OpTypeSampledImage;
		if (q == 0) { for (const M& s : { SMP, F32, t }) add(g, s, isI && s == SMP && t.acc != Acc::Storage && t.dim != Dim::SubpassData ? (t.dim == Dim::Buffer ? Open : Yes) : No, Op::OpSampledImage, wrap(Op::OpTypeSampledImage, g)); }
		else if (q == 1) add(g, {}, isS ? Yes : No, Op::OpImage, t);
		else if (q == 2) { for (const M& s : { I32, U32, F32, vec(U32, 2), B, U64 }) { Verdict v = isI && basic(t.dim) && !t.ms && s.isI() ? Yes : No; if (v == Yes && (t.acc != Acc::Sampled || s.w != 32)) v = Open; add(g, s, v, Op::OpImageQuerySizeLod, isI ? vecOr(U32, extent(t.dim) + t.arr) : VOID); } }
		else if (q == 3) add(g, {}, isI && t.dim != Dim::SubpassData && (!basic(t.dim) || t.ms || t.acc != Acc::Sampled) ? Yes : No, Op::OpImageQuerySize, isI ? vecOr(U32, extent(t.dim) + t.arr) : VOID);
		else if (q == 4) { for (const M& c : coords()) { Verdict v = isS && basic(t.dim) && !t.ms && fl(c) && len(c) >= planes(t.dim) ? (comp(c).w == 32 ? Yes : Open) : No; add(g, c, v, Op::OpImageQueryLod, vec(F32, 2)); } }
		else if (q == 5) add(g, {}, isI && basic(t.dim) ? (t.acc == Acc::Sampled && !t.ms ? Yes : Open) : No, Op::OpImageQueryLevels, U32);
		else if (q == 6) add(g, {}, isI && t.dim == Dim::Dim2D && t.ms ? Yes : No, Op::OpImageQuerySamples, U32);
		else add(g, {}, No, Op::OpNop, VOID);
	}
	if (q >= 7) { mc::outcome("see kernels"); return; } judge(ts);
}
// format and order can only be asked in kernels
MC_SCENARIO(kernels, 2)
{
	struct K_ { K_() { kernel = true; } ~K_() { kernel = false; } } inKernel; const unsigned q = mc::choose(2, "operation"), ti = mc::choose(10, "operand"); const M t[10] = { image(VOID, Dim::Dim1D, 0, false, false, Acc::Unknown, Fmt::Unknown, spv::AccessQualifier::ReadOnly), image(VOID, Dim::Dim2D, 0, false, false, Acc::Unknown, Fmt::Unknown, spv::AccessQualifier::ReadOnly), image(VOID, Dim::Dim3D, 0, false, false, Acc::Unknown, Fmt::Unknown, spv::AccessQualifier::WriteOnly), image(VOID, Dim::Dim2D, 0, true, false, Acc::Unknown, Fmt::Unknown, spv::AccessQualifier::ReadOnly), image(VOID, Dim::Buffer, 0, false, false, Acc::Unknown, Fmt::Unknown, spv::AccessQualifier::ReadOnly), F32, vec(F32, 4), SMP, U32, strct({ F32 }) };
	static const char* const names[] = { "opImageQueryFormat", "opImageQueryOrder" }; mc::op("%s of %s", names[q], types::show(t[ti]).c_str()); mc::state(mc::mix(q, ti)); std::vector<Try> ts; const M m = t[ti]; std::vector<M> targets{ m }; if (ti < 4) targets.push_back(wrap(Op::OpTypeSampledImage, m));
	for (const M& g : targets) { Try y{ names[q], std::string(names[q]) + " " + types::show(g) }; y.soft = true; y.emit = [=](Mod& x) { I a = x.undef(g), r = x.add(); return q ? r->opImageQueryOrder(a) : r->opImageQueryFormat(a); }; if (g.op == Op::OpTypeImage) { y.op = q ? Op::OpImageQueryOrder : Op::OpImageQueryFormat; y.type = U32; y.operands = [=](Mod& x, const Table&) { return std::vector<uint32_t>{ id(x.undef(g)) }; }; } ts.push_back(y); }
	judge(ts);
}
// explicit levels of detail take integer coordinates in kernels, and only there
MC_SCENARIO(kernel_coordinates, 3)
{
	struct K_ { K_() { kernel = true; } ~K_() { kernel = false; } } inKernel; static const std::vector<Dim> dims{ Dim::Dim1D, Dim::Dim2D, Dim::Dim3D }; const unsigned di = mc::choose(3, "dimension"), arr = mc::flip("arrayed"), isInt = mc::flip("integers"); if (arr && dims[di] == Dim::Dim3D) { mc::outcome("no such image"); return; } const M im = image(VOID, dims[di], 0, arr != 0, false, Acc::Unknown, Fmt::Unknown, spv::AccessQualifier::ReadOnly); mc::op("%s at %s", types::show(im).c_str(), isInt ? "integers" : "floats"); mc::state(mc::mix(mc::mix(di, arr), isInt)); std::vector<Try> ts;
	for (unsigned n : { 1u, 2u, 3u, 4u }) { const M c = vecOr(isInt ? U32 : F32, n); const M t = wrap(Op::OpTypeSampledImage, im); for (const D& d : { ds[1], ds[0] }) { const D* dp = d.kind == Level ? &ds[1] : &ds[0]; const Set s = d.kind == Level ? Set{ unsigned(Im::Lod), { { F32 } } } : Set{}; Try y = attempt(*dp, t, c, {}, s); if (d.kind == Level && len(c) >= planes(im.dim) + arr) { y.op = dp->op; y.free = false; y.type = vec(F32, 4); y.operands = [=](Mod& x, const Table&) { return std::vector<uint32_t>{ id(x.undef(t)), id(x.undef(c, 1)), unsigned(Im::Lod), id(x.undef(F32, 3)) }; }; } else if (d.kind == Implicit) { y.op = Op::OpNop; y.free = false; if (!isInt) continue; } ts.push_back(y); } }
	judge(ts);
}
MC_SCENARIO(channels, 1)
{
	static const std::vector<std::pair<Fmt, unsigned>> f{
#define F_(n, c) { Fmt::n, c }
		F_(Rgba32f, 4), F_(Rgba16f, 4), F_(R32f, 1), F_(Rgba8, 4), F_(Rgba8Snorm, 4), F_(Rg32f, 2), F_(Rg16f, 2), F_(R11fG11fB10f, 3), F_(R16f, 1), F_(Rgba16, 4), F_(Rgb10A2, 4), F_(Rg16, 2), F_(Rg8, 2), F_(R16, 1), F_(R8, 1), F_(Rgba16Snorm, 4), F_(Rg16Snorm, 2), F_(Rg8Snorm, 2), F_(R16Snorm, 1), F_(R8Snorm, 1), F_(Rgba32i, 4), F_(Rgba16i, 4), F_(Rgba8i, 4), F_(R32i, 1), F_(Rg32i, 2), F_(Rg16i, 2), F_(Rg8i, 2), F_(R16i, 1), F_(R8i, 1), F_(Rgba32ui, 4), F_(Rgba16ui, 4), F_(Rgba8ui, 4), F_(R32ui, 1), F_(Rgb10a2ui, 4), F_(Rg32ui, 2), F_(Rg16ui, 2), F_(Rg8ui, 2), F_(R16ui, 1), F_(R8ui, 1), F_(R64ui, 1), F_(R64i, 1), F_(Unknown, 0) };
	const unsigned k = mc::choose(f.size(), "format"); mc::op("format %u", unsigned(f[k].first)); mc::state(k); mc::checked(); MC_CHECK(getImageChannelCount(f[k].first) == f[k].second, "channels", "format %u has %u channels, not %u", unsigned(f[k].first), f[k].second, getImageChannelCount(f[k].first)); mc::outcome("count");
}
