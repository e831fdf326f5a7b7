// One configuration of the library, compiled with namespaces of its own (see "variants" in checks.py).
#include "c35.h"
#include "scale.h"
#include "common/ModulePrinter.h"
#include "common/Callable.h"
#include "spvgentwo/HashMap.h"
#include "spvgentwo/List.h"
#include "spvgentwo/Vector.h"
#include "spvgentwo/String.h"
#include "spvgentwo/Flag.h"
#include "spvgentwo/FNV1aHasher.h"

namespace C35_CAT(c35_, C35_NAME)
{
	using namespace spvgentwo; using namespace ir;

	void finish(Module& m, C35Result& r)
	{
		{ Writer w; r.finalized = m.finalizeAndWrite(w, &grammar()); r.words = w.words; }
		HeapAllocator a; String text(&a); auto printer = ModulePrinter::ModuleStringPrinter(text, false); r.printed = ModulePrinter::printModule(m, grammar(), printer, ModulePrinter::PrintOptionsBits::All); r.text = text.c_str() ? text.c_str() : "";
		{ Module o(&a); Reader in(r.words); r.read = o.readAndInit(in, grammar()); if (r.read) { Writer w; r.rewritten = o.finalizeAndWrite(w, &grammar()); r.again = w.words; } }
	}
	void program(const std::vector<unsigned>& steps, C35Result& r) { HeapAllocator a; Module m(&a); prog::build(m, steps); finish(m, r); }
	void large(unsigned shape, unsigned n, C35Result& r) { HeapAllocator a; Module m(&a); prog::Ctx c(m); prog::start(c); ++c.n; scale::shapes()[shape].run(c, n); prog::finish(c); finish(m, r); }

	// reading words that may be damaged
	void reread(const std::vector<uint32_t>& words, C35Result& r)
	{
		HeapAllocator a; Module o(&a); Reader in(words); r.read = o.readAndInit(in, grammar()); if (!r.read) return;
		{ String text(&a); auto printer = ModulePrinter::ModuleStringPrinter(text, false); r.printed = ModulePrinter::printModule(o, grammar(), printer, ModulePrinter::PrintOptionsBits::All); r.text = text.c_str() ? text.c_str() : ""; }
		Writer w; r.rewritten = o.finalizeAndWrite(w, &grammar()); r.again = w.words;
	}
	// a call that may be refused
	unsigned refuse(unsigned call, unsigned x, unsigned y, C35Result& r)
	{
		using I = Instruction*; HeapAllocator a; Module m(&a); prog::Ctx c(m); prog::start(c); BasicBlock& bb = *c.bb;
		I v[] = { c.f, c.i, c.v, m.constant(3u), m.constant(true), m.constant(1.5), m.constant(make_vector(1, 2, 3, 4)), m.constant(make_matrix(make_vector(1.f, 2.f), make_vector(3.f, 4.f))), m.variable<float>(spv::StorageClass::Private, 1.f, "p"), m.type<float>(), m.addFunction<void>("g").getFunction(), m.getErrorInstr(), m.constant(make_vector(1.f, 2.f)), bb.getLabel() };
		I p = v[x % 14], q = v[y % 14], e = nullptr;
#define C35_CALLS(X) X(opFAdd) X(opIAdd) X(opFMul) X(opSDiv) X(opUMod) X(opDot) X(opMatrixTimesVector) X(opVectorTimesScalar) X(opLogicalAnd) X(opFOrdLessThan) X(opIEqual) X(opShiftLeftLogical) X(opBitwiseOr) X(opOuterProduct) X(opIAddCarry) X(opVectorTimesMatrix) X(opMatrixTimesMatrix) X(opLogicalEqual) X(opSGreaterThan)
#define C35_CASE(n) if (call == k++) e = bb->n(p, q);
		unsigned k = 0; C35_CALLS(C35_CASE)
		if (call == k++) { bb->opStore(p, q); }
		if (call == k++) e = bb->opLoad(p);
		if (call == k++) e = bb->opFNegate(p);
		if (call == k++) e = bb->opNot(p);
		if (call == k++) e = bb->opConvertFToS(p);
		if (call == k++) e = bb->opAccessChain(p, 1u);
		if (call == k++) e = bb->opCompositeExtract(p, 1u);
		if (call == k++) e = bb->opSelect(v[4], p, q);
		if (call == k++) e = bb->opCopyObject(p);
		if (call == k++) e = bb.ext<GLSL450Intruction>()->opFMin(p, q);
		if (call == k++) e = bb.Add(p, q);
		if (call == k++) e = bb.Mul(p, q);
		r.trace = { e == nullptr, uint64_t(e && e->isErrorInstr()), uint64_t(e && e->getType() != nullptr) }; prog::finish(c); Writer w; r.finalized = m.finalizeAndWrite(w, &grammar()); r.words = w.words; return k;
	}

	// elements that tell how they come into being
	std::vector<uint64_t>* g_trace; void tell(unsigned k, long v) { g_trace->push_back(uint64_t(k) << 32 | uint32_t(v)); }
	struct All { long v; All() : v(-1) { tell(1, v); } All(int x) : v(x) { tell(2, v); } All(int x, int y) : v(x * 10 + y) { tell(3, v); } All(const All& o) : v(o.v) { tell(4, v); } All(All&& o) noexcept : v(o.v) { o.v = -2; tell(5, v); } All& operator=(const All& o) { v = o.v; tell(6, v); return *this; } All& operator=(All&& o) noexcept { v = o.v; o.v = -3; tell(7, v); return *this; } ~All() { tell(8, v); } bool operator==(const All& o) const { return v == o.v; } };
	struct Only { long v; Only() : v(-1) { tell(1, v); } Only(int x) : v(x) { tell(2, v); } Only(int x, int y) : v(x * 10 + y) { tell(3, v); } Only(const Only&) = delete; Only(Only&& o) noexcept : v(o.v) { o.v = -2; tell(5, v); } Only& operator=(const Only&) = delete; Only& operator=(Only&& o) noexcept { v = o.v; o.v = -3; tell(7, v); return *this; } ~Only() { tell(8, v); } bool operator==(const Only& o) const { return v == o.v; } };
	struct Agg { int a = 5; int b = 6; bool operator==(const Agg& o) const { return a == o.a && b == o.b; } };
	// prefers a list of values when it is initialized with braces
	struct Braces { long v; Braces() : v(0) {} explicit Braces(int x) : v(x) {} Braces(int x, int y) : v(x * 10 + y) {} bool operator==(const Braces& o) const { return v == o.v; } };
	long val(const All& e) { return e.v; } long val(const Only& e) { return e.v; } long val(const Agg& e) { return e.a * 100 + e.b; } long val(const Braces& e) { return e.v; } long val(int e) { return e; } long val(unsigned char e) { return e; } long val(const String& s) { return long(s.size()); } long val(const Vector<int>& v) { return long(v.size()); }

	template <class T, bool COPY> void vectors(const std::vector<unsigned>& ops, std::vector<uint64_t>& out)
	{
		HeapAllocator a; Vector<T> v(&a), w(&a); int n = 1;
		for (unsigned k : ops)
		{
			tell(100, k);
			switch (k)
			{
			case 0: v.emplace_back(n); break;
			case 1: v.emplace_back(n, 3); break;
			case 2: if constexpr (COPY) { T e[2] = { T(n), T(n + 1) }; v.insert(v.size() / 2, e); } else { v.emplace_back(T(n)); v.emplace_back(T(n + 1)); } break;
			case 3: v.resize(v.size() + 2); break;
			case 10: if constexpr (COPY) { T e(n); v.resize(v.size() + 3, &e); } else v.resize(v.size() / 2); break;
			case 4: if (v.size()) v.resize(v.size() - 1); break;
			case 5: if constexpr (COPY) w = v; else w = stdrep::move(v); if (!v.getAllocator()) v = Vector<T>(&a); break;
			case 6: { Vector<T> t(stdrep::move(v)); v = stdrep::move(w); w = stdrep::move(t); if (!v.getAllocator()) v = Vector<T>(&a); } break;
			case 7: v.reserve(v.size() * 2 + 1); break;
			case 8: v.clear(); break;
			case 9: if constexpr (COPY) { if (v.size()) { T e(v.front()); v.emplace_back(e); v.emplace_back(stdrep::move(v.front())); } } break;
			}
			++n; for (T& e : v) tell(101, val(e)); for (T& e : w) tell(102, val(e));
		}
		out.push_back(v.size()); out.push_back(v.capacity());
	}
	template <class T, bool COPY> void lists(const std::vector<unsigned>& ops, std::vector<uint64_t>& out)
	{
		HeapAllocator a; List<T> v(&a), w(&a); int n = 1;
		for (unsigned k : ops)
		{
			tell(200, k);
			switch (k)
			{
			case 0: v.emplace_back(n); break;
			case 1: v.emplace_back(n, 3); break;
			case 2: v.emplace_front(n); break;
			case 3: v.emplace_back(); break;
			case 10: if (!v.empty()) { v.insert_before(v.begin() + 1u != v.end() ? v.begin() + 1u : v.begin(), n); v.insert_after(v.begin(), n + 1); } break;
			case 4: if (!v.empty()) v.erase(v.begin()); break;
			case 5: if constexpr (COPY) w = v; else w = stdrep::move(v); if (!v.getAllocator()) v = List<T>(&a); break;
			case 6: { List<T> t(stdrep::move(v)); v = stdrep::move(w); w = stdrep::move(t); if (!v.getAllocator()) v = List<T>(&a); } break;
			case 7: if constexpr (COPY) { if (!v.empty()) tell(203, val(v.pop_back())); } else if (!v.empty()) v.erase(v.begin()); break;
			case 8: v.clear(); break;
			case 9: if constexpr (COPY) { if (!v.empty()) { T e(v.front()); v.emplace_back(e); v.emplace_back(stdrep::move(v.front())); } } break;
			}
			++n; for (T& e : v) tell(201, val(e)); for (T& e : w) tell(202, val(e));
		}
		out.push_back(v.size());
	}
	template <class K, class T, class F> void maps(const std::vector<unsigned>& ops, std::vector<uint64_t>& out, F key)
	{
		HeapAllocator a; HashMap<K, T> v(&a, 3u); int n = 1;
		for (unsigned k : ops)
		{
			tell(300, k); auto kk = [&](int i) { return key(a, i % 3); };
			switch (k)
			{
			case 0: v.emplaceUnique(kk(n), n); break;
			case 1: v.emplace(kk(n), n); break;
			case 2: v.emplaceUnique(kk(0), n, 2); break;
			case 3: v.eraseRange(kk(n)); break;
			case 10: v.emplaceUnique(kk(n), n, 4); v.emplaceUnique(kk(n), n, 5); break;
			case 4: { auto it = v.find(kk(1)); if (it != v.end()) v.erase(it); break; }
			case 5: { HashMap<K, T> t(stdrep::move(v)); v = stdrep::move(t); break; }
			case 6: v.emplace(kk(1), n); break;
			case 7: v.count(kk(0)); break;
			case 8: v.clear(); break;
			case 9: { T* e = v.get(kk(2)); tell(302, e ? val(*e) : -9); break; }
			}
			++n; for (auto& e : v) tell(301, val(e.value));
		}
		out.push_back(v.elements()); for (int i = 0; i < 3; ++i) { out.push_back(v.count(key(a, i))); out.push_back(hash(key(a, i))); }
	}
	unsigned containers(unsigned kind, const std::vector<unsigned>& ops, C35Result& r)
	{
		g_trace = &r.trace; std::vector<uint64_t> out;
		switch (kind)
		{
		case 0: vectors<All, true>(ops, out); break;
		case 1: vectors<Only, false>(ops, out); break;
		case 2: vectors<Braces, true>(ops, out); break;
		case 3: lists<All, true>(ops, out); break;
		case 4: lists<Only, false>(ops, out); break;
		case 5: lists<Agg, true>(ops, out); break;
		case 6: lists<Braces, true>(ops, out); break;
		case 7: maps<int, All>(ops, out, [](IAllocator&, int i) { return i; }); break;
		case 8: maps<String, Only>(ops, out, [](IAllocator& a, int i) { return String(&a, i == 0 ? "" : i == 1 ? "a" : "b\xff"); }); break;
		case 9: maps<unsigned char, Braces>(ops, out, [](IAllocator&, int i) { return static_cast<unsigned char>(i * 100); }); break;
		case 10: maps<spv::Op, All>(ops, out, [](IAllocator&, int i) { return spv::Op(i * 1000); }); break;
		}
		r.trace.insert(r.trace.end(), out.begin(), out.end()); return 11;
	}
}
void C35_CAT(c35_get_, C35_NAME)(C35Config& c) { c.steps = unsigned(prog::steps().size()); c.shapes = unsigned(scale::shapes().size()); c.program = C35_CAT(c35_, C35_NAME)::program; c.large = C35_CAT(c35_, C35_NAME)::large; c.containers = C35_CAT(c35_, C35_NAME)::containers; c.reread = C35_CAT(c35_, C35_NAME)::reread; c.refuse = C35_CAT(c35_, C35_NAME)::refuse; }
