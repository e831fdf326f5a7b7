// C28: Vulkan stages, descriptor types and image formats.
#include "ir.h"
#include "types.h"
#include "common/VulkanInterop.h"
using namespace spvgentwo;
using namespace ir;
using namespace types;

namespace
{
	using VT = vk::DescriptorType; using D = spv::Decoration; using A = SamplerImageAccess;
	constexpr unsigned SAMPLER = 0, COMBINED = 1, SAMPLED = 2, STORAGE = 3, UTB = 4, STB = 5, UBO = 6, SSBO = 7, INPUT = 10, ACCEL = 1000150000u, NONE = 0x7fffffffu;
	const M f32 = leaf(Op::OpTypeFloat, 32), u32 = leaf(Op::OpTypeInt, 32);
	struct Res { std::string what; M type; bool buffer = false; };
	const std::vector<Res>& resources()
	{
		static const std::vector<Res> v = []
		{
			std::vector<Res> r; r.push_back({ "sampler", leaf(Op::OpTypeSampler) }); r.push_back({ "acceleration structure", leaf(Op::OpTypeAccelerationStructureKHR) });
			const spv::Dim dims[] = { spv::Dim::Dim1D, spv::Dim::Dim2D, spv::Dim::Dim3D, spv::Dim::Cube, spv::Dim::Rect, spv::Dim::Buffer, spv::Dim::SubpassData };
			for (spv::Dim d : dims) for (A a : { A::Unknown, A::Sampled, A::Storage }) for (unsigned depth : { 0u, 1u, 2u }) for (int v2 = 0; v2 < 4; ++v2)
			{
				const bool arr = v2 & 1, ms = v2 & 2; const M i = image(v2 == 3 ? u32 : f32, d, depth, arr, ms, a, a == A::Storage && d != spv::Dim::SubpassData ? spv::ImageFormat::Rgba32f : spv::ImageFormat::Unknown); char b[100]; snprintf(b, sizeof b, "dim %u depth %u arrayed %d ms %d sampled %u", unsigned(d), depth, arr, ms, unsigned(a));
				r.push_back({ std::string("image ") + b, i }); if (d != spv::Dim::SubpassData) r.push_back({ std::string("sampled image ") + b, wrap(Op::OpTypeSampledImage, i) });
			}
			r.push_back({ "structure", strct({ wrap(Op::OpTypeVector, f32, 4), u32 }), true }); r.push_back({ "structure with a runtime array", strct({ u32, wrap(Op::OpTypeRuntimeArray, f32) }), true }); r.push_back({ "structure of structures", strct({ strct({ f32, u32 }) }), true });
			r.push_back({ "float", f32 }); r.push_back({ "vector", wrap(Op::OpTypeVector, f32, 4) }); r.push_back({ "bool", leaf(Op::OpTypeBool) }); return r;
		}();
		return v;
	}
	enum class Deco { None, Block, BufferBlock };
	// descriptor types that are right (several where the rules leave it open)
	std::set<unsigned> expected(const M& t, SC sc, Deco deco)
	{
		if (t.op == Op::OpTypeArray || t.op == Op::OpTypeRuntimeArray) return expected(t.sub[0], sc, deco);
		const bool opaque = t.op == Op::OpTypeSampler || t.op == Op::OpTypeImage || t.op == Op::OpTypeSampledImage || t.op == Op::OpTypeAccelerationStructureKHR;
		if (opaque)
		{
			if (sc != SC::UniformConstant) return { NONE }; const M* i = t.op == Op::OpTypeImage ? &t : t.op == Op::OpTypeSampledImage ? &t.sub[0] : nullptr;
			if (t.op == Op::OpTypeSampler) return { SAMPLER }; if (t.op == Op::OpTypeAccelerationStructureKHR) return { ACCEL };
			if (t.op == Op::OpTypeSampledImage) { if (i->dim == spv::Dim::Buffer) return { UTB, COMBINED, NONE }; if (i->acc != A::Sampled) return { COMBINED, NONE, STB }; return { COMBINED }; }
			if (i->dim == spv::Dim::SubpassData) { if (i->acc == A::Storage) return { INPUT }; return { INPUT, NONE }; }
			if (i->acc == A::Unknown) return { NONE }; if (i->dim == spv::Dim::Buffer) return { i->acc == A::Sampled ? UTB : STB }; return { i->acc == A::Sampled ? SAMPLED : STORAGE };
		}
		const bool s = t.op == Op::OpTypeStruct;
		if (sc == SC::Uniform) { if (s && deco == Deco::Block) return { UBO }; if (s && deco == Deco::BufferBlock) return { SSBO }; return { UBO, NONE }; }
		if (sc == SC::StorageBuffer) { if (s && deco == Deco::Block) return { SSBO }; return { SSBO, NONE }; }
		if (sc == SC::UniformConstant) return { UBO, NONE };
		return { NONE };
	}
	std::string name(unsigned v) { static const std::map<unsigned, const char*> n = { { 0, "SAMPLER" }, { 1, "COMBINED_IMAGE_SAMPLER" }, { 2, "SAMPLED_IMAGE" }, { 3, "STORAGE_IMAGE" }, { 4, "UNIFORM_TEXEL_BUFFER" }, { 5, "STORAGE_TEXEL_BUFFER" }, { 6, "UNIFORM_BUFFER" }, { 7, "STORAGE_BUFFER" }, { 10, "INPUT_ATTACHMENT" }, { ACCEL, "ACCELERATION_STRUCTURE" }, { NONE, "MAX_ENUM" } }; auto f = n.find(v); return f == n.end() ? std::to_string(v) : f->second; }
	std::string names(const std::set<unsigned>& s) { std::string r; for (unsigned v : s) r += (r.empty() ? "" : " or ") + name(v); return r; }
	M nest(const M& t, unsigned kind) { switch (kind) { case 1: return wrap(Op::OpTypeArray, t, 3); case 2: return wrap(Op::OpTypeRuntimeArray, t); case 3: return wrap(Op::OpTypeArray, wrap(Op::OpTypeArray, t, 2), 4); case 4: return wrap(Op::OpTypeRuntimeArray, wrap(Op::OpTypeArray, t, 2)); } return t; }
	Instruction* declare(Module& m, const M& t) { Type d = m.newType(); plain(d, t); return m.addType(d); }
	Instruction* variable(Module& m, const M& t, SC sc) { return m.variable(declare(m, ptr(sc, t)), sc); }
	void start(Module& m) { m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::GLSL450); }
	void deco(Module& m, Instruction* t, D d) { m.addDecorationInstr()->opDecorate(t, d); }
	void deco(Module& m, Instruction* t, D d, unsigned v) { m.addDecorationInstr()->opDecorate(t, d, v); }
	// as built and as read back
	template <class F> void both(Module& m, track::Allocator& al, Log& log, F f)
	{
		f(m, [](const Instruction* i) { return i; }, "as built"); Writer w; if (!m.finalizeAndWrite(w)) mc::broken("the module cannot be written: %s", log.last.c_str()); if (mc::tracing()) mc::note("%s", disasm(w.words).c_str()); mc::state(hashWords(w.words));
		Module r(&al, &log); Reader rd(w.words); if (!r.readAndInit(rd, grammar())) mc::broken("the module cannot be read: %s", log.last.c_str());
		f(r, [&](const Instruction* i) -> const Instruction* { return r.getInstructionById(i->getResultId()); }, "as read");
	}
}

MC_SCENARIO(descriptors, 2)
{
	auto& rs = resources(); const Res& r = rs[mc::choose(unsigned(rs.size()), "resource")]; const unsigned n = mc::choose(5, "nesting");
	const SC classes[] = { SC::UniformConstant, SC::Uniform, SC::StorageBuffer, SC::Private, SC::Workgroup, SC::Input, SC::Output, SC::PushConstant, SC::Function }; const SC sc = classes[mc::choose(9, "class")];
	// module-scope decorations of the structure, before and after unrelated ones
	const unsigned d = r.buffer ? mc::choose(6) : 0; const Deco de = d == 0 || d == 5 ? Deco::None : d < 3 ? Deco::Block : Deco::BufferBlock; mc::op("%s, %s in class %u, %s", r.what.c_str(), n == 0 ? "alone" : n == 1 ? "array" : n == 2 ? "runtime array" : n == 3 ? "array of arrays" : "runtime array of arrays", unsigned(sc), de == Deco::Block ? "Block" : de == Deco::BufferBlock ? "BufferBlock" : "no block");
	track::Allocator al; Log log;
	{
		Module m(&al, &log); start(m); const M t = nest(r.type, n); const std::set<unsigned> want = expected(t, sc, de); Instruction* v = nullptr; Function& f = m.addFunction<void>("f"); BasicBlock& bb = *f; if (sc == SC::Function) { Instruction* p = declare(m, ptr(sc, t)); v = f.variable(p); } else v = variable(m, t, sc); bb.returnValue();
		if (r.buffer) { Instruction* s = declare(m, r.type); Instruction* other = declare(m, strct({ f32 })); if (d == 5) { deco(m, other, D::BufferBlock); m.addDecorationInstr()->opMemberDecorate(s, 3u, D::NonWritable); } if (d == 2 || d == 4) { m.addDecorationInstr()->opMemberDecorate(s, 0u, D::Offset, 0u); deco(m, other, de == Deco::Block ? D::BufferBlock : D::Block); } if (de != Deco::None) deco(m, s, de == Deco::Block ? D::Block : D::BufferBlock); if (d == 2) m.addDecorationInstr()->opMemberDecorate(s, 1u, D::Offset, 16u); }
		both(m, al, log, [&](Module&, auto at, const char* when)
		{
			const Instruction* i = at(v); if (!i) mc::broken("the variable is lost"); const unsigned got = unsigned(vk::getDescriptorTypeFromVariable(*i));
			const char* k = n ? "array" : sc == SC::Uniform || sc == SC::StorageBuffer || sc == SC::UniformConstant ? "plain" : "class";
			MC_CHECK(want.count(got), (std::string("descriptor:") + k + ":" + (r.buffer ? "buffer" : r.what.substr(0, r.what.find(" dim")))).c_str(), "%s: a %s (%s) in storage class %u is %s, expected %s", when, r.what.c_str(), show(t).c_str(), unsigned(sc), name(got).c_str(), names(want).c_str());
		});
		mc::checked(); mc::outcome(names(want).c_str());
	}
}

namespace
{
	const M img = image(f32, spv::Dim::Dim2D, 0, false, false, A::Sampled), sto = image(f32, spv::Dim::Dim2D, 0, false, false, A::Storage, spv::ImageFormat::Rgba32f), buf = image(f32, spv::Dim::Buffer, 0, false, false, A::Sampled);
	struct Kind { const char* what; M t; int k; }; // k: part of a combined image sampler
	const std::vector<Kind> kinds = { { "sampler", leaf(Op::OpTypeSampler), 0 }, { "image", img, 1 }, { "sampled image", wrap(Op::OpTypeSampledImage, img), 2 }, { "array of images", wrap(Op::OpTypeArray, img, 3), 1 }, { "array of samplers", wrap(Op::OpTypeArray, leaf(Op::OpTypeSampler), 3), 0 }, { "storage image", sto, -1 }, { "uniform buffer", strct({ f32 }), -2 } };
	struct Bound { const Kind* k; int set, bind; bool swap; };
}
namespace
{
	void classify(const std::vector<Bound>& vs)
	{
		track::Allocator al; Log log;
		{
			Module m(&al, &log); start(m); std::vector<Instruction*> var; Instruction* block = declare(m, strct({ f32 })); deco(m, block, D::Block);
			for (auto& b : vs) { const SC sc = b.k->k == -2 ? SC::Uniform : SC::UniformConstant; Instruction* v = variable(m, b.k->t, sc); var.push_back(v); deco(m, v, D::NonWritable); if (b.swap) deco(m, v, D::Binding, unsigned(b.bind)); if (b.set >= 0) deco(m, v, D::DescriptorSet, unsigned(b.set)); if (b.bind >= 0 && !b.swap) deco(m, v, D::Binding, unsigned(b.bind)); }
			both(m, al, log, [&](Module&, auto at, const char* when)
			{
				for (size_t i = 0; i < vs.size(); ++i)
				{
					const Bound& b = vs[i]; bool combined = false, open = false; if (b.k->k >= 0 && b.set >= 0 && b.bind >= 0) for (auto& o : vs) if (&o != &b && o.set == b.set && o.bind == b.bind) { if (o.k->k >= 0 && o.k->k != b.k->k) combined = true; }
					if (b.set >= 0 && b.bind >= 0) for (auto& o : vs) if (o.set == b.set && o.bind == b.bind && (o.k->k == -1) != (b.k->k == -1)) open = true; // not allowed
					if (open) continue; std::set<unsigned> want = expected(b.k->t, b.k->k == -2 ? SC::Uniform : SC::UniformConstant, Deco::Block); if (combined) want = { COMBINED };
					const unsigned got = unsigned(vk::getDescriptorTypeFromVariable(*at(var[i])));
					MC_CHECK(want.count(got), combined ? "shared:combined" : "shared:alone", "%s: variable %zu (%s) is %s, expected %s", when, i, b.k->what, name(got).c_str(), names(want).c_str());
				}
			});
			mc::checked(); mc::outcome("classified");
		}
	}
}
MC_SCENARIO(sharedBindings, 3)
{
	const unsigned max = mc::bound(3, 4); std::vector<Bound> vs;
	for (unsigned i = 0; i < max; ++i)
	{
		const unsigned k = mc::choose(unsigned(kinds.size()) + 1); if (k == kinds.size()) break; Bound b{ &kinds[k], 0, 0, false };
		const unsigned where = mc::choose(i == 0 ? 4 : 7); const int at[7][2] = { { 0, 0 }, { 0, 1 }, { -1, 0 }, { 0, -1 }, { 1, 0 }, { 0, 0 }, { 1, 1 } }; b.set = at[where][0]; b.bind = at[where][1]; b.swap = where == 5; vs.push_back(b); mc::op("%s in set %d binding %d%s", b.k->what, b.set, b.bind, b.swap ? " (binding first)" : "");
	}
	classify(vs);
}
// many bindings: an image and a sampler share some of them, declared next to each other, in two runs, or in reverse
MC_SCENARIO(manyBindings, 1)
{
	const unsigned ns[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257 }, n = ns[mc::choose(mc::bound(15, 18), "bindings")], order = mc::choose(4, "order"), share = mc::choose(4, "shared"), sets = 1u << (2 * mc::choose(3, "bindings per set"));
	mc::op("%u bindings, order %u, every %u. shared, %u per set", n, order, share, sets); std::vector<Bound> vs;
	auto shared = [&](unsigned i) { return share == 0 ? true : share == 1 ? i % 2 == 0 : share == 2 ? i + 1 == n : i == n / 2; };
	auto add = [&](unsigned i, unsigned k) { const unsigned per = sets == 1 ? n : sets; vs.push_back({ &kinds[k], int(i / per), int(i % per), false }); };
	switch (order)
	{
	case 0: for (unsigned i = 0; i < n; ++i) { add(i, 1); if (shared(i)) add(i, 0); } break;
	case 1: for (unsigned i = 0; i < n; ++i) add(i, 1); for (unsigned i = 0; i < n; ++i) if (shared(i)) add(i, 0); break;
	case 2: for (unsigned i = 0; i < n; ++i) if (shared(i)) add(i, 0); for (unsigned i = n; i-- > 0;) add(i, 1); break;
	case 3: for (unsigned i = n; i-- > 0;) { if (shared(i)) add(i, i % 3 ? 0 : 4); add(i, i % 3 ? 1 : 3); } break;
	}
	classify(vs);
}

MC_SCENARIO(noVariables, 0)
{
	track::Allocator al; Log log;
	{
		Module m(&al, &log); start(m); Instruction* v = variable(m, wrap(Op::OpTypeSampledImage, img), SC::UniformConstant); Instruction* c = m.constant(1u); Function& f = m.addFunction<void>("f"); BasicBlock& bb = *f; Instruction* l = bb->opLoad(v); bb.returnValue();
		both(m, al, log, [&](Module& q, auto at, const char* when)
		{
			for (const Instruction* i : { at(c), at(l), at(f.getFunction()), at(bb.getLabel()) }) MC_CHECK(i && unsigned(vk::getDescriptorTypeFromVariable(*i)) == NONE, "noVariable", "%s: an instruction that is no variable has a descriptor type", when);
			for (auto& i : q.getTypesAndConstants()) MC_CHECK(unsigned(vk::getDescriptorTypeFromVariable(i)) == NONE, "noVariable", "%s: a type has a descriptor type", when); for (auto& i : q.getDecorations()) MC_CHECK(unsigned(vk::getDescriptorTypeFromVariable(i)) == NONE, "noVariable", "%s: a decoration has a descriptor type", when);
		});
		mc::checked(); mc::outcome("incompatible");
	}
}

MC_SCENARIO(stages, 0)
{
	static const std::map<unsigned, unsigned> want = { { 0, 1 }, { 1, 2 }, { 2, 4 }, { 3, 8 }, { 4, 0x10 }, { 5, 0x20 }, { 5267, 0x40 }, { 5268, 0x80 }, { 5313, 0x100 }, { 5314, 0x1000 }, { 5315, 0x200 }, { 5316, 0x400 }, { 5317, 0x800 }, { 5318, 0x2000 }, { 5364, 0x40 }, { 5365, 0x80 } };
	auto ask = [&](unsigned v) { auto f = want.find(v); const unsigned w = f == want.end() ? NONE : f->second, got = unsigned(vk::getShaderStageFromExecutionModel(spv::ExecutionModel(v))); MC_CHECK(w == got, f == want.end() ? "stage:incompatible" : "stage", "execution model %u is stage 0x%x, expected 0x%x", v, got, w); };
	for (unsigned v = 0; v < 70000; ++v) ask(v); ask(NONE); ask(0xffffffffu); mc::checked(); mc::outcome("mapped");
}

namespace
{
	struct Format { const char* name; int v; };
	const char* formatNames[] = { "Unknown", "Rgba32f", "Rgba16f", "R32f", "Rgba8", "Rgba8Snorm", "Rg32f", "Rg16f", "R11fG11fB10f", "R16f", "Rgba16", "Rgb10A2", "Rg16", "Rg8", "R16", "R8", "Rgba16Snorm", "Rg16Snorm", "Rg8Snorm", "R16Snorm", "R8Snorm", "Rgba32i", "Rgba16i", "Rgba8i", "R32i", "Rg32i", "Rg16i", "Rg8i", "R16i", "R8i", "Rgba32ui", "Rgba16ui", "Rgba8ui", "R32ui", "Rgb10a2ui", "Rg32ui", "Rg16ui", "Rg8ui", "R16ui", "R8ui", "R64ui", "R64i" };
}
MC_SCENARIO(formats, 0)
{
	for (unsigned v = 0; v < 60; ++v) for (int asFloat = 0; asFloat < 2; ++asFloat) for (const M& before : { f32, strct({ f32, u32 }), image(f32), wrap(Op::OpTypeVector, u32, 3) })
	{
		track::Allocator al; Type t(&al); plain(t, before); t.fromImageFormat(spv::ImageFormat(v), asFloat); std::string n = v < 42 ? formatNames[v] : "Unknown";
		const bool packed = n == "Unknown" || n.find('1') == 3 || n[1] == '1' || n.find("10") != std::string::npos; if (n == "R16" || n == "R16f" || n == "R16i" || n == "R16ui" || n == "R16Snorm") {} else if (packed) { MC_CHECK(t.isVoid(), "format:packed", "format %s yields a type that is not void", n.c_str()); continue; }
		unsigned channels = 0; size_t p = 0; while (p < n.size() && !isdigit(n[p])) { ++channels; ++p; } unsigned bits = 0; while (p < n.size() && isdigit(n[p])) bits = bits * 10 + unsigned(n[p++] - '0'); const std::string rest = n.substr(p);
		M e; const bool norm = rest.empty() || rest == "Snorm"; if (rest == "f" || (norm && asFloat)) e = leaf(Op::OpTypeFloat, bits); else e = leaf(Op::OpTypeInt, bits, rest == "i" || rest == "Snorm");
		std::vector<M> ok = { e }; if (norm && asFloat) for (unsigned w : { 16u, 32u }) if (w > bits) ok.push_back(leaf(Op::OpTypeFloat, w)); bool fine = false; std::string why;
		for (M& m : ok) { const M want = channels > 1 ? wrap(Op::OpTypeVector, m, channels) : m; const std::string d = differs(t, want); if (d.empty()) fine = true; else if (why.empty()) why = d + " is not that of " + show(want); }
		MC_CHECK(fine, norm ? "format:normalized" : "format", "format %s, normalized as %s: the %s", n.c_str(), asFloat ? "floats" : "integers", why.c_str());
	}
	mc::checked(); mc::outcome("translated");
}
