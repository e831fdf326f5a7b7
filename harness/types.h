// Independent model of types and constants: descriptions, what the library says about them, and what
// a binary says about them.
#pragma once
#include "mc.h"
#include "spvgentwo/Type.h"
#include "spvgentwo/Constant.h"
#include "spvgentwo/Spv.h"
#include <vector>
#include <string>
#include <functional>

namespace types
{
	using namespace spvgentwo;
	using Op = spv::Op;
	using SC = spv::StorageClass;

	// independent description: one field per property, compared field by field
	struct M
	{
		Op op = Op::OpTypeVoid; unsigned w = 0; bool sign = false; SC sc = SC::Generic; spv::Dim dim = spv::Dim::Max; bool arr = false, ms = false; SamplerImageAccess acc = SamplerImageAccess::Unknown; spv::ImageFormat fmt = spv::ImageFormat::Unknown; spv::AccessQualifier aq = spv::AccessQualifier::Max; std::vector<M> sub;
		bool own(const M& o) const { return op == o.op && w == o.w && sign == o.sign && sc == o.sc && dim == o.dim && arr == o.arr && ms == o.ms && acc == o.acc && fmt == o.fmt && aq == o.aq; }
		bool operator==(const M& o) const { if (!own(o) || sub.size() != o.sub.size()) return false; for (size_t i = 0; i < sub.size(); ++i) if (!(sub[i] == o.sub[i])) return false; return true; }
		const M& base() const { return sub.empty() ? *this : sub[0].base(); }
		M& base() { return sub.empty() ? *this : sub[0].base(); }
		bool isI() const { return op == Op::OpTypeInt; } bool isF() const { return op == Op::OpTypeFloat; } bool isB() const { return op == Op::OpTypeBool; } bool isV() const { return op == Op::OpTypeVector; } bool isM() const { return op == Op::OpTypeMatrix; }
		bool scalar() const { return isI() || isF() || isB(); }
	};
	inline M leaf(Op o, unsigned w = 0, bool s = false) { M m; m.op = o; m.w = w; m.sign = s; return m; }
	inline M wrap(Op o, const M& s, unsigned w = 0) { M m = leaf(o, w); m.sub.push_back(s); return m; }
	inline M ptr(SC sc, const M& s, Op o = Op::OpTypePointer) { M m = wrap(o, s); m.sc = sc; return m; }
	inline M strct(std::vector<M> subs, Op o = Op::OpTypeStruct) { M m = leaf(o); m.sub = std::move(subs); return m; }
	inline M image(const M& s, spv::Dim d = spv::Dim::Dim2D, unsigned depth = 1, bool arr = false, bool ms = false, SamplerImageAccess acc = SamplerImageAccess::Unknown, spv::ImageFormat f = spv::ImageFormat::Unknown, spv::AccessQualifier aq = spv::AccessQualifier::Max) { M m = wrap(Op::OpTypeImage, s, depth); m.dim = d; m.arr = arr; m.ms = ms; m.acc = acc; m.fmt = f; m.aq = aq; return m; }

	inline const std::vector<M>& scalars() { static const std::vector<M> v = [] { std::vector<M> r{ leaf(Op::OpTypeBool) }; for (unsigned w : { 8u, 16u, 32u, 64u }) for (bool s : { false, true }) r.push_back(leaf(Op::OpTypeInt, w, s)); for (unsigned w : { 16u, 32u, 64u }) r.push_back(leaf(Op::OpTypeFloat, w)); return r; }(); return v; }
	inline const std::vector<M>& catalog()
	{
		static const std::vector<M> v = []
		{
			std::vector<M> r{ leaf(Op::OpTypeVoid) }; const auto& sc = scalars(); r.insert(r.end(), sc.begin(), sc.end());
			for (Op o : { Op::OpTypeSampler, Op::OpTypeEvent, Op::OpTypeDeviceEvent, Op::OpTypeReserveId, Op::OpTypeQueue, Op::OpTypePipe, Op::OpTypePipeStorage, Op::OpTypeNamedBarrier, Op::OpTypeRayQueryKHR, Op::OpTypeAccelerationStructureKHR }) r.push_back(leaf(o));
			const M f32 = leaf(Op::OpTypeFloat, 32), i32 = leaf(Op::OpTypeInt, 32, true), u32 = leaf(Op::OpTypeInt, 32), b = leaf(Op::OpTypeBool), f64 = leaf(Op::OpTypeFloat, 64);
			std::vector<M> vecs; for (const M& s : sc) for (unsigned n : { 2u, 3u, 4u }) vecs.push_back(wrap(Op::OpTypeVector, s, n)); r.insert(r.end(), vecs.begin(), vecs.end());
			std::vector<M> mats; for (const M& v2 : vecs) if (v2.sub[0].isF() || (v2.sub[0].isI() && v2.sub[0].w == 32)) for (unsigned n : { 2u, 3u, 4u }) mats.push_back(wrap(Op::OpTypeMatrix, v2, n)); r.insert(r.end(), mats.begin(), mats.end());
			std::vector<M> imgs; imgs.push_back(image(f32)); imgs.push_back(image(i32)); imgs.push_back(image(f32, spv::Dim::Dim3D)); imgs.push_back(image(f32, spv::Dim::Cube)); imgs.push_back(image(f32, spv::Dim::Dim2D, 0)); imgs.push_back(image(f32, spv::Dim::Dim2D, 2)); imgs.push_back(image(f32, spv::Dim::Dim2D, 1, true)); imgs.push_back(image(f32, spv::Dim::Dim2D, 1, false, true)); imgs.push_back(image(f32, spv::Dim::Dim2D, 1, false, false, SamplerImageAccess::Sampled)); imgs.push_back(image(f32, spv::Dim::Dim2D, 1, false, false, SamplerImageAccess::Storage, spv::ImageFormat::Rgba8)); imgs.push_back(image(f32, spv::Dim::Dim2D, 1, false, false, SamplerImageAccess::Storage, spv::ImageFormat::R32f)); imgs.push_back(image(f32, spv::Dim::Dim2D, 1, false, false, SamplerImageAccess::Storage, spv::ImageFormat::R32f, spv::AccessQualifier::ReadOnly)); imgs.push_back(image(f32, spv::Dim::Dim2D, 1, false, false, SamplerImageAccess::Storage, spv::ImageFormat::R32f, spv::AccessQualifier::ReadWrite)); r.insert(r.end(), imgs.begin(), imgs.end());
			for (const M& i : imgs) r.push_back(wrap(Op::OpTypeSampledImage, i));
			std::vector<M> elems{ b, i32, u32, f32, f64, vecs[8], vecs[32], vecs[33], mats[0], imgs[0], imgs[2], leaf(Op::OpTypeVoid) };
			std::vector<M> lvl;
			for (const M& e : elems) { for (unsigned n : { 1u, 2u, 3u, 4u, 10u, 4294967295u }) lvl.push_back(wrap(Op::OpTypeArray, e, n)); lvl.push_back(wrap(Op::OpTypeRuntimeArray, e)); for (SC s : { SC::Function, SC::Uniform, SC::Generic, SC::Input }) lvl.push_back(ptr(s, e)); lvl.push_back(ptr(SC::PhysicalStorageBuffer, e, Op::OpTypeForwardPointer)); lvl.push_back(strct({ e })); lvl.push_back(strct({ e, f32 })); lvl.push_back(strct({ f32, e })); lvl.push_back(strct({ e }, Op::OpTypeFunction)); lvl.push_back(strct({ e, f32 }, Op::OpTypeFunction)); lvl.push_back(strct({ f32, e }, Op::OpTypeFunction)); }
			lvl.push_back(strct({})); lvl.push_back(leaf(Op::OpTypeRuntimeArray)); lvl.push_back(strct({ f32, f32, f32 })); lvl.push_back(strct({ f32, f32 }));
			std::vector<M> top; const M s1 = strct({ f32, i32 }), s2 = strct({ f32, u32 }), a1 = wrap(Op::OpTypeArray, f32, 2), p1 = ptr(SC::Function, f32), p2 = ptr(SC::Uniform, f32);
			for (const M& e : { s1, s2, a1, p1, p2, strct({ s1 }), wrap(Op::OpTypeRuntimeArray, s1) }) { top.push_back(strct({ e })); top.push_back(strct({ e, e })); top.push_back(strct({ f32, e })); top.push_back(ptr(SC::Uniform, e)); top.push_back(ptr(SC::Function, e)); top.push_back(wrap(Op::OpTypeArray, e, 2)); top.push_back(wrap(Op::OpTypeArray, e, 3)); top.push_back(wrap(Op::OpTypeRuntimeArray, e)); top.push_back(strct({ leaf(Op::OpTypeVoid), e, f32 }, Op::OpTypeFunction)); }
			for (auto* l : { &lvl, &top }) for (const M& m : *l) { bool dup = false; for (const M& x : r) if (x == m) dup = true; if (!dup) r.push_back(m); }
			return r;
		}();
		return v;
	}
	inline std::string show(const M& m) { char b[160]; snprintf(b, sizeof b, "%u/%u%s", unsigned(m.op), m.w, m.sign ? "s" : ""); std::string s = b; if (m.sc != SC::Generic) { snprintf(b, sizeof b, "@%u", unsigned(m.sc)); s += b; } if (m.op == Op::OpTypeImage || m.op == Op::OpTypePipe) { snprintf(b, sizeof b, "[%u %d %d %u %u %u]", unsigned(m.dim), m.arr, m.ms, unsigned(m.acc), unsigned(m.fmt), unsigned(m.aq)); s += b; } if (!m.sub.empty()) { s += "("; for (auto& x : m.sub) s += show(x) + (&x == &m.sub.back() ? "" : ","); s += ")"; } return s; }

	// every property and member of t is that of m
	inline std::string differs(const Type& t, const M& m)
	{
		if (t.getType() != m.op) return "kind"; if (t.getIntWidth() != m.w || t.getFloatWidth() != m.w || t.getImageDepth() != m.w || t.getVectorComponentCount() != m.w || t.getMatrixColumnCount() != m.w || t.getArrayLength() != m.w) return "width, depth or count"; if (t.getIntSign() != m.sign) return "sign"; if (t.getStorageClass() != m.sc) return "storage class"; if (t.getImageDimension() != m.dim) return "dimension"; if (t.getImageArray() != m.arr) return "arrayed"; if (t.getImageMultiSampled() != m.ms) return "multisampled"; if (t.getImageSamplerAccess() != m.acc) return "sampler access"; if (t.getImageFormat() != m.fmt) return "format"; if (t.getAccessQualifier() != m.aq) return "access qualifier";
		if (t.getSubTypes().size() != m.sub.size()) return "member count"; size_t i = 0; for (const Type& s : t) { if (i >= m.sub.size()) return "member count"; std::string d = differs(s, m.sub[i++]); if (!d.empty()) return "member's " + d; } if (i != m.sub.size()) return "member count"; return "";
	}
	inline void must(const Type& t, const M& m, const char* sig, const std::string& what) { const std::string d = differs(t, m); MC_CHECK(d.empty(), sig, "the %s is not that of %s: %s", d.c_str(), show(m).c_str(), what.c_str()); }
	// property by property, through the setters only
	inline void plain(Type& t, const M& m)
	{
		t.setType(m.op); t.setIntWidth(m.w); t.setIntSign(m.sign); t.setStorageClass(m.sc); t.setImageDimension(m.dim); t.setImageArray(m.arr); t.setImageMultiSampled(m.ms); t.setImageSamplerAccess(m.acc); t.setImageFormat(m.fmt); t.setAccessQualifier(m.aq);
		for (const M& s : m.sub) { Type& c = t.Member(); plain(c, s); }
	}
	inline void recurse(const M& m, const std::function<void(const M&)>& f) { f(m); for (auto& s : m.sub) recurse(s, f); }
}
