// what a binary says about its types and constants, decoded independently of the library
#pragma once
#include "ir.h"
#include "types.h"

namespace types
{
	struct K { Op op = Op::OpConstantNull; M type; std::vector<unsigned> data; std::vector<K> sub; bool operator==(const K& o) const { if (op != o.op || !(type == o.type) || data != o.data || sub.size() != o.sub.size()) return false; for (size_t i = 0; i < sub.size(); ++i) if (!(sub[i] == o.sub[i])) return false; return true; } };
	inline std::string show(const K& k) { std::string s = std::to_string(unsigned(k.op)) + ":" + show(k.type); if (!k.data.empty()) { s += "="; char b[16]; for (unsigned d : k.data) { snprintf(b, sizeof b, "%x.", d); s += b; } } if (!k.sub.empty()) { s += "{"; for (auto& x : k.sub) s += show(x) + ";"; s += "}"; } return s; }
	inline void plain(Constant& c, const K& k) { c.setOperation(k.op); plain(c.getType(), k.type); for (unsigned d : k.data) c.getData().emplace_back(d); for (const K& s : k.sub) plain(c.Component(), s); }
	inline std::string differs(const Constant& c, const K& k)
	{
		if (c.getOperation() != k.op) return "operation"; std::string d = differs(c.getType(), k.type); if (!d.empty()) return "type's " + d; if (c.getData().size() != k.data.size()) return "amount of data"; for (size_t i = 0; i < k.data.size(); ++i) if (c.getData()[i] != k.data[i]) return "data"; if (c.getComponents().size() != k.sub.size()) return "component count"; size_t i = 0; for (const Constant& s : c.getComponents()) { d = differs(s, k.sub[i++]); if (!d.empty()) return "component's " + d; } return "";
	}
	struct Table { std::map<uint32_t, M> type; std::map<uint32_t, K> con; std::vector<std::pair<uint32_t, size_t>> order; std::string error; };
	inline Table decode(const ir::Bin& b)
	{
		Table t; size_t n = 0;
		auto ty = [&](uint32_t id) -> M { auto it = t.type.find(id); if (it == t.type.end()) { if (t.error.empty()) t.error = "%" + std::to_string(id) + " is used before it is defined, or is no type"; return M(); } return it->second; };
		for (const auto& i : b.ins)
		{
			++n; const auto& w = i.w; const Op op = Op(i.op); M m = leaf(op); bool isT = true;
			switch (op)
			{
			case Op::OpTypeInt: m.w = w[2]; m.sign = w[3] == 1; if (w[3] > 1) t.error = "signedness"; break; case Op::OpTypeFloat: m.w = w[2]; break;
			case Op::OpTypeVector: case Op::OpTypeMatrix: m.sub.push_back(ty(w[2])); m.w = w[3]; break;
			case Op::OpTypePointer: m.sc = SC(w[2]); m.sub.push_back(ty(w[3])); break;
			case Op::OpTypeForwardPointer: m.sc = SC(w[2]); m.sub.push_back(ty(w[1])); t.order.push_back({ 0, n }); t.type[0x80000000u + n] = m; isT = false; break;
			case Op::OpTypeStruct: case Op::OpTypeFunction: for (size_t k = 2; k < w.size(); ++k) m.sub.push_back(ty(w[k])); break;
			case Op::OpTypeRuntimeArray: case Op::OpTypeSampledImage: m.sub.push_back(ty(w[2])); break;
			case Op::OpTypeArray: { m.sub.push_back(ty(w[2])); auto c = t.con.find(w[3]); if (c == t.con.end() || c->second.data.empty()) { if (t.error.empty()) t.error = "array length is used before it is defined"; break; } m.w = c->second.data[0]; if (!(c->second.type == leaf(Op::OpTypeInt, 32))) t.error = "array length is not a 32 bit unsigned constant"; break; }
			case Op::OpTypeImage: m.sub.push_back(ty(w[2])); m.dim = spv::Dim(w[3]); m.w = w[4]; m.arr = w[5] == 1; m.ms = w[6] == 1; m.acc = SamplerImageAccess(w[7]); m.fmt = spv::ImageFormat(w[8]); if (w.size() > 9) m.aq = spv::AccessQualifier(w[9]); break;
			case Op::OpTypePipe: m.aq = spv::AccessQualifier(w[2]); break;
			case Op::OpTypeVoid: case Op::OpTypeBool: case Op::OpTypeSampler: case Op::OpTypeEvent: case Op::OpTypeDeviceEvent: case Op::OpTypeReserveId: case Op::OpTypeQueue: case Op::OpTypePipeStorage: case Op::OpTypeNamedBarrier: case Op::OpTypeRayQueryKHR: case Op::OpTypeAccelerationStructureKHR: break;
			default: isT = false;
			}
			if (isT) { t.type[w[1]] = m; t.order.push_back({ w[1], n }); continue; }
			K k; k.op = op; bool isK = true;
			switch (op)
			{
			case Op::OpConstantTrue: case Op::OpSpecConstantTrue: k.data = { 1 }; break; case Op::OpConstantFalse: case Op::OpSpecConstantFalse: k.data = { 0 }; break; case Op::OpConstantNull: break;
			case Op::OpConstant: case Op::OpSpecConstant: case Op::OpConstantSampler: k.data.assign(w.begin() + 3, w.end()); break;
			case Op::OpConstantComposite: case Op::OpSpecConstantComposite: for (size_t c = 3; c < w.size(); ++c) { auto it = t.con.find(w[c]); if (it == t.con.end()) { if (t.error.empty()) t.error = "constituent %" + std::to_string(w[c]) + " is used before it is defined"; } else k.sub.push_back(it->second); } break;
			default: isK = false;
			}
			if (isK) { k.type = ty(w[1]); t.con[w[2]] = k; t.order.push_back({ w[2], n }); }
		}
		return t;
	}
	// all ordered trees of structures, functions, arrays and two scalars with the given number of nodes
	inline void shapes(unsigned nodes, std::vector<M>& out)
	{
		static std::map<unsigned, std::vector<M>> memo; static std::map<unsigned, std::vector<std::vector<M>>> forests; std::function<const std::vector<M>&(unsigned)> tree; std::function<const std::vector<std::vector<M>>&(unsigned)> forest;
		forest = [&](unsigned n) -> const std::vector<std::vector<M>>& { auto it = forests.find(n); if (it != forests.end()) return it->second; std::vector<std::vector<M>> r; if (!n) r.push_back({}); for (unsigned f = 1; f <= n; ++f) for (const M& first : tree(f)) for (auto rest : forest(n - f)) { rest.insert(rest.begin(), first); r.push_back(rest); } return forests[n] = r; };
		tree = [&](unsigned n) -> const std::vector<M>& { auto it = memo.find(n); if (it != memo.end()) return it->second; std::vector<M> r; if (n == 1) { r.push_back(leaf(Op::OpTypeFloat, 32)); r.push_back(leaf(Op::OpTypeInt, 32)); } for (auto& f : forest(n - 1)) { r.push_back(strct(f)); if (f.size() == 1) { r.push_back(ptr(SC::Function, f[0])); r.push_back(wrap(Op::OpTypeArray, f[0], 2)); } } return memo[n] = r; };
		for (unsigned n = 1; n <= nodes; ++n) { const auto& t = tree(n); out.insert(out.end(), t.begin(), t.end()); }
	}
	inline const std::vector<K>& constants()
	{
		static const std::vector<K> v = []
		{
			std::vector<K> r; const M f32 = leaf(Op::OpTypeFloat, 32), f64 = leaf(Op::OpTypeFloat, 64), f16 = leaf(Op::OpTypeFloat, 16), b = leaf(Op::OpTypeBool); auto S = [](const M& m, std::vector<unsigned> d, Op op = Op::OpConstant) { K k; k.op = op; k.type = m; k.data = std::move(d); return k; }; auto C = [](const M& m, std::vector<K> s, Op op = Op::OpConstantComposite) { K k; k.op = op; k.type = m; k.sub = std::move(s); return k; }; auto N = [](const M& m) { K k; k.type = m; return k; }; auto V = [](const M& s, unsigned n) { return wrap(Op::OpTypeVector, s, n); };
			r.push_back(S(b, { 1 }, Op::OpConstantTrue)); r.push_back(S(b, { 0 }, Op::OpConstantFalse)); for (unsigned w : { 8u, 16u, 32u }) for (bool s : { false, true }) for (unsigned v2 : { 0u, 1u, 2u }) r.push_back(S(leaf(Op::OpTypeInt, w, s), { v2 })); r.push_back(S(leaf(Op::OpTypeInt, 32, true), { ~0u })); r.push_back(S(leaf(Op::OpTypeInt, 32), { ~0u }));
			for (bool s : { false, true }) for (auto d : { std::vector<unsigned>{ 0, 0 }, { 1, 0 }, { 0, 1 }, { 1, 1 } }) r.push_back(S(leaf(Op::OpTypeInt, 64, s), d)); for (unsigned v2 : { 0u, 0x3f800000u, 0x80000000u, 0x7fc00000u, 1u }) r.push_back(S(f32, { v2 })); for (auto d : { std::vector<unsigned>{ 0, 0 }, { 0, 0x3ff00000 }, { 0, 0x80000000 }, { 1, 0 } }) r.push_back(S(f64, d)); r.push_back(S(f16, { 0x3c00 }));
			const K one = S(f32, { 0x3f800000 }), zero = S(f32, { 0 }), i1 = S(leaf(Op::OpTypeInt, 32, true), { 1 }), u1 = S(leaf(Op::OpTypeInt, 32), { 1 }), T = S(b, { 1 }, Op::OpConstantTrue); for (const M& m : { b, f32, f64, leaf(Op::OpTypeInt, 32), V(f32, 2), V(f32, 3), wrap(Op::OpTypeMatrix, V(f32, 2), 2), wrap(Op::OpTypeArray, f32, 2), wrap(Op::OpTypeArray, f32, 3), strct({ f32 }), strct({ f32, f32 }) }) r.push_back(N(m));
			const K v2 = C(V(f32, 2), { zero, one }), v2b = C(V(f32, 2), { one, zero }), v2n = C(V(f32, 2), { N(f32), one }); r.push_back(v2); r.push_back(v2b); r.push_back(v2n); r.push_back(C(V(f32, 3), { zero, one, one })); r.push_back(C(V(b, 2), { T, T })); r.push_back(C(wrap(Op::OpTypeMatrix, V(f32, 2), 2), { v2, v2b })); r.push_back(C(wrap(Op::OpTypeMatrix, V(f32, 2), 2), { v2b, v2 })); r.push_back(C(wrap(Op::OpTypeMatrix, V(f32, 2), 2), { N(V(f32, 2)), v2 })); r.push_back(C(wrap(Op::OpTypeArray, f32, 2), { zero, one })); r.push_back(C(wrap(Op::OpTypeArray, V(f32, 2), 2), { v2, v2 })); r.push_back(C(wrap(Op::OpTypeArray, wrap(Op::OpTypeArray, f32, 2), 1), { C(wrap(Op::OpTypeArray, f32, 2), { zero, one }) }));
			r.push_back(C(strct({ f32, f32 }), { zero, one })); r.push_back(C(strct({ f32 }), { one })); r.push_back(C(strct({ i1.type, u1.type }), { i1, u1 })); r.push_back(C(strct({ strct({ f32 }), f32 }), { C(strct({ f32 }), { one }), one })); r.push_back(C(strct({ strct({ f32, f32 }) }), { C(strct({ f32, f32 }), { one, one }) })); r.push_back(C(strct({ V(f32, 2), f32 }), { v2, one }));
			for (unsigned a : { 0u, 2u, 4u }) for (unsigned c : { 0u, 1u }) for (unsigned f : { 0u, 1u }) r.push_back(S(leaf(Op::OpTypeSampler), { a, c, f }, Op::OpConstantSampler));
			return r;
		}();
		return v;
	}
	inline const std::vector<K>& specs()
	{
		static const std::vector<K> v = [] { std::vector<K> r; for (const K& k : constants()) { K s = k; switch (k.op) { case Op::OpConstant: s.op = Op::OpSpecConstant; break; case Op::OpConstantTrue: s.op = Op::OpSpecConstantTrue; break; case Op::OpConstantFalse: s.op = Op::OpSpecConstantFalse; break; case Op::OpConstantComposite: s.op = Op::OpSpecConstantComposite; break; default: continue; } r.push_back(s); } return r; }(); return v;
	}

	// writes types and constants as SPIR-V words, independently of the library; equal ones share an id unless copies are asked for
	struct Enc
	{
		ir::Words w; uint32_t next = 1; std::map<std::string, uint32_t> ids; std::vector<std::pair<uint32_t, M>> types; std::vector<std::pair<uint32_t, K>> cons;
		static void put(ir::Words& o, unsigned op, const ir::Words& a) { o.push_back(unsigned(a.size() + 1) << 16 | op); o.insert(o.end(), a.begin(), a.end()); }
		void put(Op op, const ir::Words& a) { put(w, unsigned(op), a); }
		uint32_t type(const M& m, bool copy = false)
		{
			const std::string key = "T" + show(m); auto it = ids.find(key); if (it != ids.end() && !copy) return it->second; ir::Words sub; for (auto& s : m.sub) sub.push_back(type(s)); uint32_t len = 0; if (m.op == Op::OpTypeArray) { K k; k.op = Op::OpConstant; k.type = leaf(Op::OpTypeInt, 32); k.data = { m.w }; len = con(k); }
			if (m.op == Op::OpTypeForwardPointer) { put(m.op, { sub[0], unsigned(m.sc) }); ids[key] = 0; return 0; }
			const uint32_t id = next++; ir::Words a{ id };
			switch (m.op)
			{
			case Op::OpTypeInt: a.insert(a.end(), { m.w, unsigned(m.sign) }); break; case Op::OpTypeFloat: a.push_back(m.w); break; case Op::OpTypeVector: case Op::OpTypeMatrix: a.insert(a.end(), { sub[0], m.w }); break; case Op::OpTypePointer: a.insert(a.end(), { unsigned(m.sc), sub[0] }); break; case Op::OpTypeArray: a.insert(a.end(), { sub[0], len }); break;
			case Op::OpTypeImage: a.insert(a.end(), { sub[0], unsigned(m.dim), m.w, unsigned(m.arr), unsigned(m.ms), unsigned(m.acc), unsigned(m.fmt) }); if (m.aq != spv::AccessQualifier::Max) a.push_back(unsigned(m.aq)); break; case Op::OpTypePipe: a.push_back(unsigned(m.aq)); break; default: a.insert(a.end(), sub.begin(), sub.end());
			}
			put(m.op, a); types.push_back({ id, m }); ids.emplace(key, id); return id;
		}
		uint32_t con(const K& k, bool copy = false)
		{
			const std::string key = "K" + show(k); auto it = ids.find(key); if (it != ids.end() && !copy) return it->second; ir::Words a{ type(k.type), 0 }; for (auto& s : k.sub) a.push_back(con(s)); a[1] = next++;
			switch (k.op) { case Op::OpConstant: case Op::OpSpecConstant: case Op::OpConstantSampler: a.insert(a.end(), k.data.begin(), k.data.end()); break; default: break; }
			put(k.op, a); cons.push_back({ a[1], k }); ids.emplace(key, a[1]); return a[1];
		}
		ir::Words module(const ir::Words& tail = {}) const { ir::Words o{ 0x07230203, 0x00010600, 0, next, 0 }; put(o, 17, { 1 }); put(o, 17, { 5 }); put(o, 14, { 0, 1 }); o.insert(o.end(), w.begin(), w.end()); o.insert(o.end(), tail.begin(), tail.end()); return o; }
	};
}
