// C32: type descriptions compare by their properties, answer according to them and are named consistently.
#include "mc.h"
#include "track.h"
#include "types.h"
#include "spvgentwo/Type.h"
#include "spvgentwo/String.h"
#include "spvgentwo/Spv.h"
#include "spvgentwo/Module.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "common/TypeHelper.h"
#include <vector>
#include <string>
#include <map>
#include <memory>
#include <functional>
using namespace types;

namespace
{
	// by the named builder of its kind, members in place (void) or as copies
	bool named(IAllocator* al, Type& t, const M& m, bool copies)
	{
		std::unique_ptr<Type> inner; if (m.sub.size() == 1 || m.op == Op::OpTypeImage) { inner.reset(new Type(al)); if (!named(al, *inner, m.sub[0], !copies)) return false; } Type* in = copies ? inner.get() : nullptr; bool done = copies;
		switch (m.op)
		{
		case Op::OpTypeVoid: t.Void(); break; case Op::OpTypeBool: t.Bool(); break; case Op::OpTypeInt: if (copies) { if (m.sign) t.Int(m.w); else t.UInt(m.w); } else t.Int(m.w, m.sign); break; case Op::OpTypeFloat: if (copies && m.w == 64) t.Double(); else t.Float(m.w); break;
		case Op::OpTypeVector: if (copies) t.Vector(m.w, in); else { if (m.sub.empty()) return false; named(al, t.VectorElement(m.w), m.sub[0], copies); done = true; } break;
		case Op::OpTypeMatrix: if (m.sub.empty() || m.sub[0].sub.empty()) return false; if (copies) { Type comp(al); named(al, comp, m.sub[0].sub[0], copies); t.Matrix(m.w, m.sub[0].w, &comp); } else { Type& col = t.MatrixColumn(m.w); col.setVectorComponentCount(m.sub[0].w); named(al, col.Member(), m.sub[0].sub[0], copies); done = true; } break;
		case Op::OpTypeArray: if (copies) t.Array(m.w, in); else { if (m.sub.empty()) return false; named(al, t.ArrayElement(m.w), m.sub[0], copies); done = true; } break;
		case Op::OpTypeRuntimeArray: if (copies) t.RuntimeArray(in); else if (m.sub.empty()) t.RuntimeArray(); else { named(al, t.RuntimeArrayElement(), m.sub[0], copies); done = true; } break;
		case Op::OpTypePointer: t.Pointer(m.sc, in); break; case Op::OpTypeForwardPointer: t.ForwardPointer(m.sc, in); break;
		case Op::OpTypeSampledImage: t.SampledImage(in); break;
		case Op::OpTypeImage: { const M& s = m.sub[0]; dyn_image_t d{ dyn_scalar_t{ s.op, s.w, s.sign }, m.dim, m.w, m.arr, m.ms, m.acc, m.fmt, m.aq }; if (copies) t.Image(d); else t.Image(d.sampledType, m.dim, m.w, m.arr, m.ms, m.acc, m.fmt, m.aq); done = true; break; }
		case Op::OpTypeStruct: if (m.sub.size() == 2 && copies) { Type a(al), b(al); named(al, a, m.sub[0], !copies); named(al, b, m.sub[1], !copies); t.Struct(a, b); done = true; } else { t.Struct(in); done = in != nullptr; } break;
		case Op::OpTypeFunction: t.Function(); done = false; break;
		case Op::OpTypeSampler: t.Sampler(); break; case Op::OpTypeEvent: t.Event(); break; case Op::OpTypeDeviceEvent: t.DeviceEvent(); break; case Op::OpTypeReserveId: t.ReserveId(); break; case Op::OpTypeQueue: t.Queue(); break; case Op::OpTypePipe: t.Pipe(); break; case Op::OpTypePipeStorage: t.PipeStorage(); break; case Op::OpTypeNamedBarrier: t.NamedBarrier(); break; case Op::OpTypeRayQueryKHR: t.RayQueryKHR(); break; case Op::OpTypeAccelerationStructureKHR: t.AccelerationStructureKHR(); break;
		default: return false;
		}
		if (!done || (m.op == Op::OpTypeStruct && m.sub.size() > 2)) for (size_t i = 0; i < m.sub.size(); ++i)
		{
			const M& s = m.sub[i]; if (copies) { Type c(al); named(al, c, s, true); if (m.op == Op::OpTypeStruct) t.MemberM(&c); else t.Member(&c); continue; }
			if (m.op == Op::OpTypeStruct) { if (s.op == Op::OpTypeVoid) { t.VoidM(); continue; } if (s.isB()) { t.BoolM(); continue; } if (s.isI()) { if (s.sign) t.IntM(s.w); else t.UIntM(s.w); continue; } if (s.isF()) { if (s.w == 64) t.DoubleM(); else t.FloatM(s.w); continue; } if (s.sub.size() == 1 && (s.isV() || s.op == Op::OpTypeArray || s.op == Op::OpTypeRuntimeArray)) { Type e(al); named(al, e, s.sub[0], true); if (s.isV()) t.VectorM(s.w, &e); else if (s.op == Op::OpTypeArray) t.ArrayM(s.w, &e); else t.RuntimeArrayM(&e); continue; } }
			named(al, t.Member(), s, copies);
		}
		return true;
	}
	void garbage(Type& t, unsigned kind) { switch (kind) { case 0: break; case 1: t.Image({ Op::OpTypeInt, 16, true }, spv::Dim::Buffer, 2, true, true, SamplerImageAccess::Storage, spv::ImageFormat::R8, spv::AccessQualifier::WriteOnly); break; case 2: t.Pointer(SC::Workgroup).Member().Int(64); break; case 3: t.Struct(); t.IntM(64); t.Member().VectorElement(4).Float(16); t.Member().Struct().FloatM(); break; case 4: t.Int(16); break; } }

	// all predicates of one description
	void predicates(const Type& t, const M& m, const std::string& n)
	{
		const Sign signs[] = { Sign::Any, Sign::Signed, Sign::Unsigned }; const unsigned widths[] = { 0, 8, 16, 32, 64 }; const unsigned lens[] = { 0, 2, 3, 4 }; const Op ops[] = { Op::OpTypeInt, Op::OpTypeFloat, Op::OpTypeBool, Op::OpTypeVector };
		auto sgn = [&](const M& x, Sign s) { return s == Sign::Any || ((s == Sign::Signed) == (x.base().isI() && x.base().sign)); };
		auto is = [&](bool got, bool want, const char* p) { MC_CHECK(got == want, p, "%s answers %d for %s", p, got, n.c_str()); };
		const Op o = m.op; is(t.isVoid(), o == Op::OpTypeVoid, "isVoid"); is(t.isBool(), m.isB(), "isBool"); is(t.isPointer(), o == Op::OpTypePointer, "isPointer"); is(t.isForwardPointer(), o == Op::OpTypeForwardPointer, "isForwardPointer"); is(t.isStruct(), o == Op::OpTypeStruct, "isStruct"); is(t.isArray(), o == Op::OpTypeArray, "isArray"); is(t.isRuntimeArray(), o == Op::OpTypeRuntimeArray, "isRuntimeArray"); is(t.isImage(), o == Op::OpTypeImage, "isImage"); is(t.isSampler(), o == Op::OpTypeSampler, "isSampler"); is(t.isSampledImage(), o == Op::OpTypeSampledImage, "isSampledImage"); is(t.isVector(), m.isV(), "isVector"); is(t.isMatrix(), m.isM(), "isMatrix"); is(t.isFunction(), o == Op::OpTypeFunction, "isFunction"); is(t.isOpaque(), o == Op::OpTypeOpaque, "isOpaque"); is(t.isEvent(), o == Op::OpTypeEvent, "isEvent"); is(t.isDeviceEvent(), o == Op::OpTypeDeviceEvent, "isDeviceEvent"); is(t.isReservedId(), o == Op::OpTypeReserveId, "isReservedId"); is(t.isPipe(), o == Op::OpTypePipe, "isPipe"); is(t.isPipeStorage(), o == Op::OpTypePipeStorage, "isPipeStorage"); is(t.isQueue(), o == Op::OpTypeQueue, "isQueue"); is(t.isRayQueryKHR(), o == Op::OpTypeRayQueryKHR, "isRayQueryKHR"); is(t.isAccelerationStructure(), o == Op::OpTypeAccelerationStructureKHR, "isAccelerationStructure");
		for (SC s : { SC::Function, SC::Uniform, SC::Generic, SC::Input, SC::PhysicalStorageBuffer }) { is(t.isPointer(s), o == Op::OpTypePointer && m.sc == s, "isPointer(storage)"); is(t.isForwardPointer(s), o == Op::OpTypeForwardPointer && m.sc == s, "isForwardPointer(storage)"); }
		for (unsigned w : widths) { for (Sign s : signs) is(t.isInt(w, s), m.isI() && (!w || w == m.w) && sgn(m, s), "isInt"); is(t.isUInt(w), m.isI() && (!w || w == m.w) && !m.sign, "isUInt"); is(t.isSInt(w), m.isI() && (!w || w == m.w) && m.sign, "isSInt"); is(t.isFloat(w), m.isF() && (!w || w == m.w), "isFloat"); }
		const bool I = m.isI(), S = m.sign; is(t.isI8(), I && m.w == 8, "isI8"); is(t.isU8(), I && m.w == 8 && !S, "isU8"); is(t.isS8(), I && m.w == 8 && S, "isS8"); is(t.isI16(), I && m.w == 16, "isI16"); is(t.isU16(), I && m.w == 16 && !S, "isU16"); is(t.isS16(), I && m.w == 16 && S, "isS16"); is(t.isI32(), I && m.w == 32, "isI32"); is(t.isU32(), I && m.w == 32 && !S, "isU32"); is(t.isS32(), I && m.w == 32 && S, "isS32"); is(t.isI64(), I && m.w == 64, "isI64"); is(t.isU64(), I && m.w == 64 && !S, "isU64"); is(t.isS64(), I && m.w == 64 && S, "isS64"); is(t.isF16(), m.isF() && m.w == 16, "isF16"); is(t.isF32(), m.isF() && m.w == 32, "isF32"); is(t.isF64(), m.isF() && m.w == 64, "isF64");
		is(t.isNumerial(), I || m.isF(), "isNumerial"); is(t.isScalar(), m.scalar(), "isScalar"); const bool agg = o == Op::OpTypeStruct || o == Op::OpTypeArray; is(t.isAggregate(), agg, "isAggregate"); is(t.isComposite(), agg || m.isM() || m.isV(), "isComposite"); for (Sign s : signs) is(t.hasSign(s), sgn(m, s), "hasSign"); is(t.isSigned(), m.base().isI() && m.base().sign, "isSigned"); is(t.isUnsigned(), m.base().isI() && !m.base().sign, "isUnsigned");
		MC_CHECK(t.getBaseTypeOp() == m.base().op, "getBaseType", "wrong base of %s", n.c_str()); must(t.getBaseType(), m.base(), "getBaseType", n); is(t.isSqareMatrix(), m.isM() && m.w == m.sub[0].w, "isSqareMatrix"); MC_CHECK(t.getScalarOrVectorLength() == (m.scalar() ? 1u : m.isV() ? m.w : 0u), "getScalarOrVectorLength", "wrong for %s", n.c_str()); MC_CHECK(t.getMatrixRowCount() == (m.isM() ? m.sub[0].w : 0u), "getMatrixRowCount", "wrong for %s", n.c_str());
		for (Op p : ops) { is(t == p, o == p, "operator==(Op)"); is(t != p, o != p, "operator!=(Op)"); is(t.isBaseTypeOf(p), m.base().op == p, "isBaseTypeOf"); bool has = false; recurse(m, [&](const M& x) { has |= x.op == p; }); is(t.containsType(p), has, "containsType(Op)"); is(t.isSqareMatrixOf(p), m.isM() && m.w == m.sub[0].w && m.base().op == p, "isSqareMatrixOf"); }
		for (unsigned l : lens) for (unsigned w : widths) for (Sign s : signs)
		{
			const M* c = m.isV() ? &m.sub[0] : nullptr; const bool vec = c && (!l || m.w == l) && (!w || c->w == w) && sgn(*c, s);
			is(t.isVectorOfLength(l, w, s), vec, "isVectorOfLength"); is(t.isVectorOfInt(l, w, s), vec && c->isI(), "isVectorOfInt");
			if (s == Sign::Any) { is(t.isVectorOfSInt(l, w), vec && c->isI() && c->sign, "isVectorOfSInt"); is(t.isVectorOfUInt(l, w), vec && c->isI() && !c->sign, "isVectorOfUInt"); is(t.isVectorOfFloat(l, w), vec && c->isF(), "isVectorOfFloat"); if (!w) is(t.isVectorOfBool(l), vec && c->isB(), "isVectorOfBool"); }
			for (Op p : ops) { const bool v = vec && c->op == p; is(t.isVectorOf(p, l, w, s), v, "isVectorOf"); is(t.isScalarOrVectorOf(p, l, w, s), (o == p && (!w || m.w == w) && sgn(m, s)) || v, "isScalarOrVectorOf"); for (unsigned r : lens) is(t.isMatrixOf(p, l, r, w, s), m.isM() && m.base().op == p && (!l || m.w == l) && (!r || m.sub[0].w == r) && (!w || m.base().w == w) && sgn(m, s), "isMatrixOf"); }
			is(t.isNumericalScalarOrVector(l, w, s), ((m.isI() || m.isF()) && (!w || m.w == w) && sgn(m, s)) || (vec && (c->isI() || c->isF())), "isNumericalScalarOrVector");
			for (unsigned r : lens) { const bool mm = m.isM() && (!l || m.w == l) && (!r || m.sub[0].w == r) && (!w || m.base().w == w); if (s == Sign::Any) is(t.isMatrixOfFloat(l, r, w), mm && m.base().isF(), "isMatrixOfFloat"); is(t.isMatrixOfInt(l, r, w, s), mm && m.base().isI() && sgn(m, s), "isMatrixOfInt"); }
		}
	}
	// the part of a description that its readable name spells
	void spelled(const M& m, std::string& s)
	{
		char b[48]; const bool plainKind = m.scalar() || m.isV() || m.isM(); snprintf(b, sizeof b, "<%u", unsigned(m.op)); s += b; if (plainKind || m.op == Op::OpTypeArray) { snprintf(b, sizeof b, " %u%s", m.w, m.sign ? "s" : ""); s += b; }
		if (plainKind || m.op == Op::OpTypeArray || m.op == Op::OpTypeStruct || m.op == Op::OpTypePointer || m.op == Op::OpTypeFunction) for (const M& x : m.sub) spelled(x, s); s += ">";
	}
	bool nameable(const M& m) { bool ok = true; recurse(m, [&](const M& x) { if (x.op == Op::OpTypeNamedBarrier) ok = false; if (x.op == Op::OpTypeFunction && x.sub.empty()) ok = false; }); return ok; }
	std::string nameOf(IAllocator& al, const Type& t) { String s(&al); TypeHelper::getTypeName(t, s); return std::string(s.c_str() ? s.c_str() : "", s.size() ? s.size() : 0); }
}

// every description, built every way
MC_SCENARIO(paths, 1)
{
	const auto& cat = catalog(); const M& m = cat[mc::choose(cat.size(), "type")]; const unsigned path = mc::choose(20, "path"); const unsigned g = mc::choose(5, "before"); const std::string what = show(m) + " by way " + std::to_string(path) + " over " + std::to_string(g); if (mc::tracing()) mc::op("%s", what.c_str());
	track::Allocator al;
	{
		Type ref(&al); plain(ref, m); must(ref, m, "setters", what); Type t(&al); garbage(t, g); bool built = true;
		switch (path)
		{
		case 0: built = named(&al, t, m, false); break;
		case 1: built = named(&al, t, m, true); break;
		case 2: t = ref; break;
		case 3: { Type c(ref); t = stdrep::move(c); break; }
		case 4: { Type c(ref); Type d(stdrep::move(c)); must(d, m, "move", what); t = d; break; }
		case 5: t.reset(); must(t, M(), "reset", what); plain(t, m); break;
		case 6: if (m.sub.size() != 1) { built = false; break; } { Type in(&al); plain(in, m.sub[0]); t = in.wrap(m.op); must(in, m.sub[0], "wrap-changes-source", what); M bare = strct({ m.sub[0] }, m.op); must(t, bare, "wrap", what); t.setIntWidth(m.w); t.setStorageClass(m.sc); t.setImageDimension(m.dim); t.setImageArray(m.arr); t.setImageMultiSampled(m.ms); t.setImageSamplerAccess(m.acc); t.setImageFormat(m.fmt); t.setAccessQualifier(m.aq); } break;
		case 7: if (m.sub.size() != 1) { built = false; break; } { Type in(&al); plain(in, m.sub[0]); t = in.moveWrap(m.op); M bare = strct({ m.sub[0] }, m.op); must(t, bare, "moveWrap", what); t.setIntWidth(m.w); t.setStorageClass(m.sc); t.setProperties(m.dim, m.acc, m.fmt, m.aq); t.setImageArray(m.arr); t.setImageMultiSampled(m.ms); } break;
		case 8: { if (m.sub.size() != 1) { built = false; break; } Type in(&al); plain(in, m.sub[0]); switch (m.op) { case Op::OpTypePointer: t = in.wrapPointer(m.sc); break; case Op::OpTypeVector: t = in.wrapVector(m.w); break; case Op::OpTypeMatrix: t = in.wrapMatrix(m.w); break; case Op::OpTypeArray: t = in.wrapArray(m.w); break; case Op::OpTypeStruct: t = in.wrapStruct(); break; default: built = false; } must(in, m.sub[0], "wrap-changes-source", what); break; }
		case 9: if (m.sub.size() != 1) { built = false; break; } { Type in(&al); plain(in, m.sub[0]); Type c(&al, in, m.op); must(c, strct({ m.sub[0] }, m.op), "wrapping-constructor", what); Type d(&al, stdrep::move(in), m.op); must(d, strct({ m.sub[0] }, m.op), "wrapping-constructor", what); MC_CHECK(c == d, "wrapping-constructor", "%s", what.c_str()); t = stdrep::move(d); t.setIntWidth(m.w); t.setProperties(m.sc); t.setProperties(m.dim, m.acc, m.fmt, m.aq); t.setImageArray(m.arr); t.setImageMultiSampled(m.ms); } break;
		case 10: { dyn_scalar_t s{ m.base().op, m.base().w, m.base().sign }; const bool sc = m.base().scalar() || m.base().op == Op::OpTypeVoid; if (!sc) { built = false; break; }
			if (m.sub.empty()) { if (g & 1) t.Scalar(s); else t.Scalar(s.baseType, s.bits, s.sign); } else if (m.isV()) t.Vector(dyn_vector_t{ s, m.w }); else if (m.isM()) t.Matrix(dyn_matrix_t{ dyn_vector_t{ s, m.sub[0].w }, m.w }); else if (m.op == Op::OpTypeSampledImage) { const M& i = m.sub[0]; dyn_image_t d{ s, i.dim, i.w, i.arr, i.ms, i.acc, i.fmt, i.aq }; if (g & 1) t.SampledImage(d); else t.SampledImage(dyn_sampled_image_t{ d }); } else built = false; break; }
		case 11: { dyn_scalar_t s{ m.base().op, m.base().w, m.base().sign }; const bool sc = m.base().scalar() || m.base().op == Op::OpTypeVoid; if (!sc && m.op != Op::OpTypeArray && m.op != Op::OpTypeRuntimeArray) { built = false; break; }
			if (m.sub.empty() && sc) t.make<dyn_scalar_t>(s); else if (m.isV()) t.make<dyn_vector_t>(dyn_vector_t{ s, m.w }); else if (m.isM()) t.make<dyn_matrix_t>(dyn_matrix_t{ dyn_vector_t{ s, m.sub[0].w }, m.w }); else if (m.op == Op::OpTypeImage) t.make<dyn_image_t>(dyn_image_t{ s, m.dim, m.w, m.arr, m.ms, m.acc, m.fmt, m.aq }); else if (m.op == Op::OpTypeSampledImage) { const M& i = m.sub[0]; t.make<dyn_sampled_image_t>(dyn_sampled_image_t{ dyn_image_t{ s, i.dim, i.w, i.arr, i.ms, i.acc, i.fmt, i.aq } }); }
			else if (m.sub.size() == 1 && m.op == Op::OpTypeArray) { Type e(&al); plain(e, m.sub[0]); t.make<dyn_array_t>(dyn_array_t{ e, m.w }); } else if (m.sub.size() == 1 && m.op == Op::OpTypeRuntimeArray) { Type e(&al); plain(e, m.sub[0]); t.make<dyn_runtime_array_t>(dyn_runtime_array_t{ e }); } else built = false; break; }
		case 12: { if (m.op != Op::OpTypePointer || m.sub.size() != 1) { built = false; break; } const M& e = m.sub[0]; dyn_scalar_t s{ e.base().op, e.base().w, e.base().sign }; if (e.scalar()) t.make<dyn_scalar_t*>(m.sc, s); else if (e.isV()) t.make<dyn_vector_t*>(m.sc, dyn_vector_t{ s, e.w }); else if (e.isM()) t.make<dyn_matrix_t*>(m.sc, dyn_matrix_t{ dyn_vector_t{ s, e.sub[0].w }, e.w }); else if (e.op == Op::OpTypeImage) t.make<dyn_image_t*>(dyn_image_t{ s, e.dim, e.w, e.arr, e.ms, e.acc, e.fmt, e.aq }, m.sc); else if (e.op == Op::OpTypeArray) { Type el(&al); plain(el, e.sub[0]); t.make<dyn_array_t*>(m.sc, dyn_array_t{ el, e.w }); } else built = false; break; }
		case 16: case 17: case 18: case 19: { // the type becomes one made of itself or of one of its own members
			if (m.sub.size() != 1) { built = false; break; } Type in(&al); plain(in, m.sub[0]); const Type* e = &t; if (path == 16) t = in; else { Type outer(&al); if (path == 18) outer.Struct(); else outer.Pointer(SC::Private); Type& child = outer.Member(); child.Member(&in); if (path == 19) child = in; t = outer; e = &t.front(); if (path != 19) e = &e->front(); }
			auto leafOnly = [&] { return m.isM() && (g & 1) && m.sub[0].sub.size() == 1; };
			switch (m.op) { case Op::OpTypePointer: t.Pointer(m.sc, e); break; case Op::OpTypeForwardPointer: t.ForwardPointer(m.sc, e); break; case Op::OpTypeVector: t.Vector(m.w, e); break; case Op::OpTypeMatrix: if (leafOnly()) t.Matrix(m.w, m.sub[0].w, &e->front()); else t.Matrix(m.w, e); break; case Op::OpTypeArray: t.Array(m.w, e); break; case Op::OpTypeRuntimeArray: t.RuntimeArray(e); break; case Op::OpTypeSampledImage: t.SampledImage(e); break; case Op::OpTypeStruct: if (g & 1) t.Struct(*e); else t.Struct(e); break; default: built = false; } break; }
		case 13: { t = ref; Type& self = t; t = self; must(t, m, "self-assignment", what); t = stdrep::move(self); break; }
		case 14: case 15: { // unwrap: a description is assigned (copy, move) from one of its own members
			Type outer(&al); garbage(outer, g == 2 ? 3 : g); Type& child = outer.Member(&ref); const bool deep = g & 1; Type* src = &child; if (deep) { Type& c2 = child.Member(&ref); src = &c2; } if (path == 14) outer = *src; else outer = stdrep::move(*src); t = outer; break; }
		}
		if (built)
		{
			must(t, m, "built", what); MC_CHECK(t == ref && ref == t && !(t != ref), "unequal", "two descriptions of the same type are unequal: %s", what.c_str()); MC_CHECK(Hasher<Type>()(t, 0) == Hasher<Type>()(ref, 0), "hash", "equal descriptions have different hashes: %s", what.c_str());
			// independent of its origin from now on
			Type c(t); Type::Iterator it = c.begin(); if (it != c.end()) { it->reset(); it->Struct().Member().Sampler(); must(t, m, "copy-shares-members", what); } else { c.Member().Int(); must(t, m, "copy-shares-members", what); }
			Type e(t.New()); must(e, M(), "new", what); e.Member().Int(); Type ws = t.wrapStruct(); must(ws, strct({ m }), "wrapStruct", what); must(ws.moveWrap(Op::OpTypePointer), strct({ strct({ m }) }, Op::OpTypePointer), "moveWrap", what);
			if (!m.sub.empty() || m.isI()) { Type u(t); u.setSign(!m.base().sign); M v = m; v.base().sign = !m.base().sign; must(u, v, "setSign", what); }
			t.reset(); must(t, M(), "reset", what); mc::outcome("built");
		}
		else mc::outcome("path does not apply");
	}
	al.expectEmpty("types"); mc::state(mc::hashStr(show(m)));
}

MC_SCENARIO(answers, 1)
{
	const auto& cat = catalog(); const unsigned i = mc::choose(cat.size(), "type"); track::Allocator al;
	{
		static std::vector<std::unique_ptr<Type>>* all = nullptr; static track::Allocator* keep = nullptr; static std::vector<std::string>* names = nullptr;
		if (!all) { keep = new track::Allocator; all = new std::vector<std::unique_ptr<Type>>; names = new std::vector<std::string>; for (const M& m : cat) { all->emplace_back(new Type(keep)); plain(*all->back(), m); names->push_back(nameable(m) ? nameOf(*keep, *all->back()) : std::string()); } }
		const M& m = cat[i]; Type t(&al); plain(t, m); const std::string n = show(m); if (mc::tracing()) mc::op("%s", n.c_str()); predicates(t, m, n); const std::string name = nameable(m) ? nameOf(al, t) : std::string(); std::string key; spelled(m, key);
		auto bw = [](const M& a, const M& b, bool same) { return !same || a.base().w == b.base().w; };
		for (size_t j = 0; j < cat.size(); ++j)
		{
			const M& o = cat[j]; const Type& u = *(*all)[j]; const bool eq = i == j; auto is = [&](bool got, bool want, const char* p) { MC_CHECK(got == want, p, "%s answers %d for %s and %s", p, got, n.c_str(), show(o).c_str()); };
			is(t == u, eq, "operator=="); is(u == t, eq, "operator=="); is(t != u, !eq, "operator!="); bool has = false; recurse(m, [&](const M& x) { has |= x == o; }); is(t.containsType(u), has, "containsType");
			is(t.hasSameBase(u), m.base() == o.base(), "hasSameBase"); is(t.hasSameBase(u, true), m.base().op == o.base().op, "hasSameBase(op)"); const bool vl = m.isV() && o.isV() && m.w == o.w; is(t.hasSameVectorLength(u), vl, "hasSameVectorLength"); for (bool w : { false, true }) is(t.isScalarOrVectorOfSameLength(u, w), bw(m, o, w) && (vl || (m.scalar() && o.scalar())), "isScalarOrVectorOfSameLength");
			for (Op p : { Op::OpTypeInt, Op::OpTypeFloat, Op::OpTypeBool }) { const bool v2 = vl && m.sub[0].op == p && o.sub[0].op == p; is(t.hasSameVectorLength(u, p), v2, "hasSameVectorLength(op)"); for (bool w : { false, true }) is(t.isScalarOrVectorOfSameLength(p, u, w), bw(m, o, w) && (v2 || (m.op == p && o.op == p)), "isScalarOrVectorOfSameLength(op)"); }
			const M &a = m.base(), &b = o.base(); is(t.hasSameComponentWidth(u), (a.isI() || a.isF()) && (b.isI() || b.isF()) && a.w == b.w, "hasSameComponentWidth");
			if (nameable(m) && nameable(o)) { std::string k2; spelled(o, k2); if (eq) MC_CHECK(name == (*names)[j], "name-differs", "equal descriptions are called '%s' and '%s'", name.c_str(), (*names)[j].c_str()); if (key != k2) MC_CHECK(name != (*names)[j], "name-same", "%s and %s are both called '%s'", n.c_str(), show(o).c_str(), name.c_str()); }
		}
		if (nameable(m)) { MC_CHECK(!name.empty(), "name-empty", "%s has no name", n.c_str()); } const char* fs = t.getString(); const char* gs = (*all)[i]->getString(); MC_CHECK((fs == nullptr) == (gs == nullptr) && (!fs || std::string(fs) == gs), "getString", "differs for %s", n.c_str());
		mc::outcome("compared");
	}
	al.expectEmpty("types"); mc::state(i);
}

// the names given to structures appear where the structure is spelled
MC_SCENARIO(struct_names, 1)
{
	std::vector<M> pick; for (const M& m : catalog()) { bool st = false, ok = nameable(m); unsigned depth = 0; recurse(m, [&](const M& x) { st |= x.op == Op::OpTypeStruct; ok &= x.op != Op::OpTypeForwardPointer && x.op != Op::OpTypeFunction && !(x.op == Op::OpTypeRuntimeArray && x.sub.empty()); (void)depth; }); if (st && ok) pick.push_back(m); }
	const M& m = pick[mc::choose(pick.size(), "type")]; const unsigned via = mc::choose(2, "through"); if (mc::tracing()) mc::op("%s through %u", show(m).c_str(), via); if (via == 1 && (m.op != Op::OpTypePointer)) { mc::outcome("not a pointer"); return; }
	track::Allocator al;
	{
		Module mod(&al, spv::AddressingModel::Logical, spv::MemoryModel::GLSL450, nullptr); Type t(&al); plain(t, m); Instruction* in = mod.addType(t); if (!in) mc::broken("type refused"); std::vector<M> named; std::vector<std::string> order;
		std::function<void(const M&)> walk = [&](const M& x) { if (x.op == Op::OpTypeStruct) { size_t k = 0; while (k < named.size() && !(named[k] == x)) ++k; if (k == named.size()) { named.push_back(x); Type s(&al); plain(s, x); mod.addName(mod.addType(s), ("Name" + std::to_string(k)).c_str()); } order.push_back("Name" + std::to_string(k)); } if (x.op == Op::OpTypeStruct || x.op == Op::OpTypePointer || x.op == Op::OpTypeArray || x.op == Op::OpTypeFunction) for (auto& c : x.sub) walk(c); }; walk(m);
		const std::string bare = nameOf(al, t); std::string want, mark = "struct "; size_t pos = 0, k = 0; for (size_t f; (f = bare.find(mark, pos)) != std::string::npos; pos = f + mark.size()) { want += bare.substr(pos, f - pos) + mark; if (k < order.size()) want += order[k]; ++k; } want += bare.substr(pos); if (k != order.size()) mc::broken("%zu structures spelled instead of %zu: %s", k, order.size(), bare.c_str());
		Instruction* about = in; if (via == 1) about = mod.addGlobalVariableInstr()->opVariable(in, m.sc); String s(&al); TypeHelper::getTypeName(t, s, about); const std::string got(s.c_str() ? s.c_str() : ""); MC_CHECK(got == want, "struct-name", "'%s' instead of '%s' for %s", got.c_str(), want.c_str(), show(m).c_str()); mc::outcome("named");
	}
	al.expectEmpty("module"); mc::state(mc::hashStr(show(m)));
}

// structures and signatures with many members, and types nested deeply
MC_SCENARIO(large, 1)
{
	const unsigned ns[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513 }, kind = mc::choose(8, "kind"), n = ns[mc::choose(kind < 3 ? mc::bound(18, 21) : mc::bound(12, 15), "number")]; mc::op("kind %u, %u", kind, n);
	const std::vector<M> l = { leaf(Op::OpTypeFloat, 32), leaf(Op::OpTypeInt, 32, true), wrap(Op::OpTypeVector, leaf(Op::OpTypeFloat, 32), 4), leaf(Op::OpTypeBool), wrap(Op::OpTypeArray, leaf(Op::OpTypeInt, 16), 7) };
	auto make = [&](int odd)
	{
		M r = l[0]; std::vector<M> sub; for (unsigned i = 0; i < n; ++i) sub.push_back(int(i) == odd ? leaf(Op::OpTypeFloat, 64) : l[i % 5]);
		switch (kind)
		{
		case 0: return strct(sub);
		case 1: r = M(); r.op = Op::OpTypeFunction; r.sub = sub; return r;
		case 2: r = strct(sub); return wrap(Op::OpTypeArray, strct({ l[1], r, r }), 3);
		case 3: for (unsigned i = 0; i < n; ++i) r = int(i) == odd ? strct({ r, l[1] }) : strct({ r }); return r;
		case 4: for (unsigned i = 0; i < n; ++i) r = int(i) == odd ? strct({ l[2], r }) : strct({ l[1], r }); return r;
		case 5: for (unsigned i = 0; i < n; ++i) r = wrap(Op::OpTypeArray, r, int(i) == odd ? 9 : i % 5 + 1); return r;
		case 6: for (unsigned i = 0; i < n; ++i) r = ptr(int(i) == odd ? SC::Uniform : SC::Private, r); return r;
		default: for (unsigned i = 0; i < n; ++i) r = i % 3 == 0 ? strct({ l[3], r }) : i % 3 == 1 ? ptr(int(i) == odd ? SC::Uniform : SC::Private, r) : wrap(Op::OpTypeArray, r, int(i) == odd ? 9 : 2); return r;
		}
	};
	track::Allocator al;
	{
		const M m = make(-1); Type t(&al); plain(t, m); must(t, m, "large", "large"); Type copy(t); must(copy, m, "copy", "large"); Type as(&al); as.Int(16); as = t; must(as, m, "copy assignment", "large"); MC_CHECK(copy == t && !(copy != t), "large-equal", "a copy of a large type differs");
		Type moved(stdrep::move(copy)); must(moved, m, "move", "large"); MC_CHECK(moved == t, "large-equal", "a moved large type differs"); const std::string name = nameOf(al, t); mc::state(mc::hashStr(show(m)));
		Module mod(&al, spv::AddressingModel::Logical, spv::MemoryModel::GLSL450, nullptr); Instruction* const one = mod.addType(t); MC_CHECK(one && mod.addType(moved) == one, "large-dedupe", "equal large types are declared twice"); const Type* info = mod.getTypeInfo(one); MC_CHECK(info && *info == t, "large-info", "the module remembers another type");
		for (int odd : { 0, int(n / 2), int(n) - 2, int(n) - 1 })
		{
			const M other = make(odd); Type u(&al); plain(u, other); const bool same = other == m; must(u, other, "large", "large");
			MC_CHECK((u == t) == same && (t == u) == same, "large-equal", "types that differ at %d of %u compare %s", odd, n, same ? "unequal" : "equal"); MC_CHECK((mod.addType(u) == one) == same, "large-dedupe", "types that differ at %d of %u share a declaration", odd, n);
			std::string x, y; spelled(m, x); spelled(other, y); MC_CHECK((x == y) == (nameOf(al, u) == name), "large-name", "types that differ at %d of %u are called alike", odd, n);
			t = u; must(t, other, "assignment over a large type", "large"); t = moved; must(t, m, "assignment over a large type", "large");
		}
	}
	al.expectEmpty("module"); mc::outcome("large type");
}

// C++ types
namespace
{
	struct Cpp { const char* name; void(*make)(Type&); M want; };
	template<class T> void mk(Type& t) { t.make<T>(); }
	template<class T> void mkp(Type& t) { t.make<T*>(SC::Uniform); }
	template<class T> void mkpp(Type& t) { t.make<T**>(SC::Workgroup); }
	template<class T> void mkppp(Type& t) { t.make<T***>(SC::Function); }
	template<class T> void mkcp(Type& t) { t.make<T* const>(SC::Uniform); }
	template<class T> void mkap(Type& t) { t.make<array_t<T**, 3>>(); }
	const std::vector<Cpp>& cpp()
	{
		static const std::vector<Cpp> v = []
		{
			const M i8 = leaf(Op::OpTypeInt, 8, true), u8 = leaf(Op::OpTypeInt, 8), i16 = leaf(Op::OpTypeInt, 16, true), u16 = leaf(Op::OpTypeInt, 16), i32 = leaf(Op::OpTypeInt, 32, true), u32 = leaf(Op::OpTypeInt, 32), i64 = leaf(Op::OpTypeInt, 64, true), u64 = leaf(Op::OpTypeInt, 64), f32 = leaf(Op::OpTypeFloat, 32), f64 = leaf(Op::OpTypeFloat, 64), b = leaf(Op::OpTypeBool), vd = leaf(Op::OpTypeVoid); std::vector<Cpp> r;
			auto V = [](const M& s, unsigned n) { return wrap(Op::OpTypeVector, s, n); }; auto A = [](const M& s, unsigned n) { return wrap(Op::OpTypeArray, s, n); }; auto X = [&](const M& s, unsigned c, unsigned rows) { return wrap(Op::OpTypeMatrix, V(s, rows), c); };
#define CPP(...) r.push_back({ #__VA_ARGS__, mk<__VA_ARGS__>, want }); r.push_back({ #__VA_ARGS__ "*", mkp<__VA_ARGS__>, ptr(SC::Uniform, want) }); r.push_back({ #__VA_ARGS__ "**", mkpp<__VA_ARGS__>, ptr(SC::Workgroup, ptr(SC::Generic, want)) }); r.push_back({ #__VA_ARGS__ "***", mkppp<__VA_ARGS__>, ptr(SC::Function, ptr(SC::Generic, ptr(SC::Generic, want))) }); r.push_back({ #__VA_ARGS__ "* const", mkcp<__VA_ARGS__>, ptr(SC::Uniform, want) }); r.push_back({ "array of 3 " #__VA_ARGS__ "**", mkap<__VA_ARGS__>, A(ptr(SC::Generic, ptr(SC::Generic, want)), 3) });
#define T1(w, ...) { M want = w; CPP(__VA_ARGS__) }
			r.push_back({ "void", mk<void>, vd }); T1(b, bool) T1(i8, char) T1(u8, unsigned char) T1(i16, short) T1(u16, unsigned short) T1(i32, int) T1(u32, unsigned int) T1(i64, long long) T1(u64, unsigned long long) T1(f32, float) T1(f64, double)
			T1(leaf(Op::OpTypeSampler), sampler_t) T1(leaf(Op::OpTypeEvent), event_t) T1(leaf(Op::OpTypeDeviceEvent), device_event_t) T1(leaf(Op::OpTypeReserveId), reserve_id_t) T1(leaf(Op::OpTypeQueue), queue_t) T1(leaf(Op::OpTypePipe), pipe_t) T1(leaf(Op::OpTypePipeStorage), pipe_storage_t) T1(leaf(Op::OpTypeNamedBarrier), named_barrier_t) T1(leaf(Op::OpTypeRayQueryKHR), ray_query_khr_t) T1(leaf(Op::OpTypeAccelerationStructureKHR), acceleration_structure_khr_t)
			T1(V(f32, 2), vector_t<float, 2>) T1(V(f32, 4), vector_t<float, 4>) T1(V(i16, 3), vector_t<short, 3>) T1(V(u64, 2), vector_t<unsigned long long, 2>) T1(V(b, 4), vector_t<bool, 4>)
			T1(X(f32, 2, 3), matrix_t<float, 2, 3>) T1(X(f32, 3, 2), matrix_t<float, 3, 2>) T1(X(f64, 4, 4), matrix_t<double, 4, 4>) T1(X(f32, 2, 4), matrix_t<float, 2, 4>)
			T1(A(f32, 5), array_t<float, 5>) T1(A(V(u8, 3), 7), array_t<vector_t<unsigned char, 3>, 7>) T1(A(A(i32, 2), 3), array_t<array_t<int, 2>, 3>) T1(A(X(f32, 2, 3), 2), array_t<matrix_t<float, 2, 3>, 2>)
			T1(V(f32, 3), const_vector_t<float, 3>) T1(X(f32, 3, 2), const_matrix_t<float, 3, 2>) T1(A(u32, 4), const_array_t<unsigned int, 4>) T1(leaf(Op::OpTypeSampler), const_sampler_t) T1(V(i32, 2), const_null_t<vector_t<int, 2>>) T1(A(f32, 3), const_null_t<array_t<float, 3>>) T1(A(V(f32, 2), 3), const_array_t<const_vector_t<float, 2>, 3>)
#undef T1
#undef CPP
			r.push_back({ "array of pointers", [](Type& t) { t.make<array_t<float*, 2>>(); }, A(ptr(SC::Generic, f32), 2) });
			return r;
		}();
		return v;
	}
}
MC_SCENARIO(cxx, 1)
{
	const auto& c = cpp(); const Cpp& e = c[mc::choose(c.size(), "C++ type")]; const unsigned g = mc::choose(5, "before"); if (mc::tracing()) mc::op("make<%s>", e.name); track::Allocator al; { Type t(&al); garbage(t, g); e.make(t); must(t, e.want, "make", e.name); Type ref(&al); plain(ref, e.want); MC_CHECK(t == ref, "unequal", "%s", e.name); mc::outcome("made"); } al.expectEmpty("types"); mc::state(mc::hashStr(e.name));
}

// histories on three descriptions
MC_SCENARIO(histories, 2)
{
	track::Allocator al;
	{
		Type t[2] = { Type(&al), Type(&al) }; M m[2]; bool gone[2] = { false, false }; const unsigned depth = mc::bound(5, 7);
		for (unsigned step = 0; step < depth; ++step)
		{
			const unsigned i = mc::choose(2, "description"); Type& a = t[i]; M& x = m[i]; Type& b = t[1 - i]; M& y = m[1 - i]; const unsigned k = mc::choose(gone[i] ? 3 : 22, "operation"); mc::op("operation %u on %u", k, i);
			auto img = [&] { return image(leaf(Op::OpTypeInt, 32, true), spv::Dim::Cube, 2, true, true, SamplerImageAccess::Storage, spv::ImageFormat::R32i, spv::AccessQualifier::ReadOnly); };
			auto innermost = [](Type& r) -> Type& { Type* p = &r; while (!p->getSubTypes().empty()) p = &p->back(); return *p; };
			auto innermostM = [](M& r) -> M& { M* p = &r; while (!p->sub.empty()) p = &p->sub.back(); return *p; };
			switch (k)
			{
			case 0: if (gone[1 - i]) { mc::outcome("skipped"); break; } a = b; x = y; gone[i] = false; break;
			case 1: if (gone[1 - i]) break; a = stdrep::move(b); x = y; gone[i] = false; gone[1 - i] = true; break;
			case 2: { Type n(&al); n.Vector(3).Member().Float(); a = n; x = wrap(Op::OpTypeVector, leaf(Op::OpTypeFloat, 32), 3); gone[i] = false; break; }
			case 3: a.reset(); x = M(); break;
			case 4: a.Int(16); x = leaf(Op::OpTypeInt, 16, true); break;
			case 5: a.Float(64); x = leaf(Op::OpTypeFloat, 64); break;
			case 6: a.Struct(); x = leaf(Op::OpTypeStruct); break;
			case 7: a.Member(); x.sub.push_back(M()); break;
			case 8: innermost(a).Image({ Op::OpTypeInt, 32, true }, spv::Dim::Cube, 2, true, true, SamplerImageAccess::Storage, spv::ImageFormat::R32i, spv::AccessQualifier::ReadOnly); innermostM(x) = img(); break;
			case 9: innermost(a).UInt(8); innermostM(x) = leaf(Op::OpTypeInt, 8); break;
			case 10: a = a.wrapPointer(SC::Workgroup); x = ptr(SC::Workgroup, x); break;
			case 11: a = a.wrapArray(7); x = wrap(Op::OpTypeArray, M(x), 7); break;
			case 12: a = a.moveWrap(Op::OpTypeStruct); x = wrap(Op::OpTypeStruct, M(x)); break;
			case 13: a.setType(Op::OpFAdd); break; // not a type: ignored
			case 14: a.setType(Op::OpTypeRuntimeArray); x.op = Op::OpTypeRuntimeArray; break;
			case 15: if (a.getSubTypes().empty()) break; a = a.front(); { M c = x.sub[0]; x = c; } break;
			case 16: if (a.getSubTypes().empty()) break; a = stdrep::move(a.back()); { M c = x.sub.back(); x = c; } break;
			case 17: if (gone[1 - i]) break; a.Member(&b); x.sub.push_back(y); break;
			case 18: if (gone[1 - i] || b.getSubTypes().empty()) break; a = b.front(); x = M(y.sub[0]); break;
			case 19: a.setStorageClass(SC::Uniform); x.sc = SC::Uniform; break;
			case 20: a.Sampler(); x = leaf(Op::OpTypeSampler); break;
			case 21: if (gone[1 - i]) break; a.Pointer(SC::Input, &b); x = ptr(SC::Input, M(y)); break;
			}
			for (unsigned j = 0; j < 2; ++j) if (!gone[j]) must(t[j], m[j], "history", "after operation " + std::to_string(k)); if (!gone[0] && !gone[1]) { const bool eq = m[0] == m[1]; MC_CHECK((t[0] == t[1]) == eq && (t[1] != t[0]) == !eq, "history-equality", "comparison is wrong"); if (eq) MC_CHECK(Hasher<Type>()(t[0], 0) == Hasher<Type>()(t[1], 0), "hash", "equal descriptions have different hashes"); }
			std::string key = (gone[0] ? "-" : show(m[0])) + "|" + (gone[1] ? "-" : show(m[1])); mc::state(mc::hashStr(key)); if (!mc::fresh(mc::hashStr(key), depth - step - 1)) break;
		}
		mc::outcome("history");
	}
	al.expectEmpty("types");
}
