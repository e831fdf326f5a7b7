// C07: type-erased callables against a value-semantics model.
#include <cstdarg>
#include "mc.h"
#include "track.h"
#include "common/Callable.h"
#include "common/HeapCallable.h"
#include <memory>
#include <vector>
using namespace spvgentwo;
using track::El;

namespace
{
	int freeA(int x) { return x * 2 + 1; }
	int freeB(int x) { return x * 3 + 7; }
	struct Obj { int k; int calls = 0; int mem(int x) { ++calls; return x * 5 + k; } int mem2(int x) { ++calls; return x * 11 - k; } };
	struct Small { El e; int id; explicit Small(int i) : e(0), id(i) {} int operator()(int x) { e.v += x; return e.v * 10 + id; } };
	struct Big { El e; long pad[20]; int id; explicit Big(int i) : e(0), id(i) { for (int k = 0; k < 20; ++k) pad[k] = i + k; } int operator()(int x) { e.v += x; long s = 0; for (int k = 0; k < 20; ++k) s += pad[k] - k; return int(s) + e.v * 100 + id; } };

	struct Model { int kind = 0; int id = 0; int acc = 0; bool alloc = true; };
	int expect(Model& m, int x, Obj& o)
	{
		switch (m.kind)
		{
		case 1: return x * 2 + 1; case 2: return x * 3 + 7; case 3: return x * 5 + o.k; case 4: return x * 11 - o.k;
		case 5: m.acc += x; return m.acc * 10 + m.id; case 6: m.acc += x; return 20 * m.id + m.acc * 100 + m.id;
		} return 0;
	}
	using C = Callable<int(int)>;
	using H = HeapCallable<int(int)>;

	template <class T> T* fresh(IAllocator* a, int kind, int id, Obj* o);
	template <> C* fresh<C>(IAllocator* a, int kind, int id, Obj* o)
	{
		switch (kind)
		{
		case 0: return new C(a); case 1: return new C(a, freeA); case 2: { int(*f)(int) = freeB; return new C(make_callable(a, f)); }
		case 3: return new C(a, o, &Obj::mem); case 4: return new C(make_callable(a, o, &Obj::mem2));
		case 5: { Small s(id); if (id & 1) return new C(a, s); const Small& cs = s; return new C(a, cs); } default: return new C(a, Big(id));
		}
	}
	template <> H* fresh<H>(IAllocator*, int kind, int id, Obj* o)
	{
		switch (kind)
		{
		case 0: return new H(); case 1: return new H(freeA); case 2: { int(*f)(int) = freeB; return new H(f); }
		case 3: return new H(o, &Obj::mem); case 4: return new H(o, &Obj::mem2);
		case 5: { Small s(id); return new H(s); } default: return new H(Big(id));
		}
	}
	template <class T> void assign(T& t, int kind, int id, int form)
	{
		switch (kind)
		{
		case 5: { Small s(id); const Small& cs = s; if (form == 0) t = s; else if (form == 1) t = cs; else t = Small(id); break; }
		case 6: { Big s(id); const Big& cs = s; if (form == 0) t = s; else if (form == 1) t = cs; else t = Big(id); break; }
		}
	}

	template <class T> void world(unsigned depth, bool refuse)
	{
		track::Allocator a("alloc0"), b("alloc1"); const int base = El::alive(); Obj o{ 4 };
		if (refuse) a.failAt = 1 + mc::choose(5, "refused request");
		{
			std::vector<std::unique_ptr<T>> slot(2); std::vector<Model> m(2); int nextId = 1;
			auto verify = [&](const char* what)
			{
				int functors = 0;
				for (unsigned i = 0; i < 2; ++i) if (slot[i])
				{
					MC_CHECK(bool(*slot[i]) == (m[i].kind != 0), "emptiness", "after %s: callable %u is %s", what, i, m[i].kind ? "empty but should hold a target" : "not empty");
					functors += m[i].kind >= 5;
				}
				MC_CHECK(El::alive() - base == functors, "functor-count", "after %s: %d functors alive, expected %d", what, El::alive() - base, functors);
				if (std::is_same<T, C>::value) { const unsigned held = (slot[0] && m[0].kind) + (slot[1] && m[1].kind); MC_CHECK(a.live.size() + b.live.size() == held, "balance", "after %s: %zu blocks allocated for %u targets", what, a.live.size() + b.live.size(), held); }
			};
			for (unsigned d = 0; d < depth && !mc::aborting(); ++d)
			{
				const unsigned c = mc::choose(26, "operation"); char what[64];
				const unsigned i = c & 1, j = 1 - i;
				const unsigned refusedBefore = a.refused;
				if (c < 14)
				{
					const int kind = c / 2; snprintf(what, sizeof what, "construct(%u, kind %d)", i, kind); mc::op("%s", what);
					slot[i].reset(); slot[i].reset(fresh<T>(i ? &b : &a, kind, nextId, &o)); m[i] = { kind, nextId++, 0, true };
					if (a.refused != refusedBefore) m[i].kind = 0;
				}
				else if (c < 16)
				{
					if (!slot[i]) return;
					const int kind = 5 + mc::choose(2, "functor"), form = mc::choose(3, "value category"); snprintf(what, sizeof what, "assign(%u, kind %d, form %d)", i, kind, form); mc::op("%s", what);
					const bool known = m[i].alloc; assign(*slot[i], kind, nextId, form);
					// a callable without an allocator (moved-from) cannot store a target: it may stay empty
					if (!known && !bool(*slot[i])) m[i] = { 0, 0, 0, false };
					else m[i] = { a.refused != refusedBefore ? 0 : kind, nextId, 0, true };
					++nextId;
				}
				else if (c < 18) { if (!slot[i]) return; snprintf(what, sizeof what, "reset(%u)", i); mc::op("%s", what); slot[i]->reset(); m[i].kind = 0; }
				else if (c < 20)
				{
					if (!slot[i] || !slot[j]) return; snprintf(what, sizeof what, "copy_assign(%u <- %u)", i, j); mc::op("%s", what);
					if (mc::flip("const source")) *slot[i] = static_cast<const T&>(*slot[j]); else *slot[i] = *slot[j];
					m[i] = m[j]; if (a.refused != refusedBefore) m[i].kind = 0;
				}
				else if (c < 22)
				{
					if (!slot[i]) return; const bool self = mc::flip("self"); const unsigned s = self ? i : j; if (!slot[s]) return;
					snprintf(what, sizeof what, "move_assign(%u <- %u)", i, s); mc::op("%s", what);
					*slot[i] = std::move(*slot[s]); if (!self) { m[i] = m[s]; m[s] = { 0, 0, 0, false }; }
				}
				else if (c < 24)
				{
					if (!slot[j]) return; const unsigned f = mc::choose(4, "form"); snprintf(what, sizeof what, "%s(%u <- %u)", f == 2 ? "move_construct" : f == 3 ? "self_assign" : "copy_construct", i, j); mc::op("%s", what);
					if (f == 0) { std::unique_ptr<T> n(new T(static_cast<const T&>(*slot[j]))); slot[i] = std::move(n); m[i] = m[j]; }
					else if (f == 1) { std::unique_ptr<T> n(new T(*slot[j])); slot[i] = std::move(n); m[i] = m[j]; }
					else if (f == 2) { std::unique_ptr<T> n(new T(std::move(*slot[j]))); slot[i] = std::move(n); m[i] = m[j]; m[j] = { 0, 0, 0, false }; }
					else { T& self = *slot[j]; self = self; }
					if (a.refused != refusedBefore) m[i].kind = 0;
				}
				else
				{
					if (!slot[i] || m[i].kind == 0) return; snprintf(what, sizeof what, "invoke(%u)", i); mc::op("%s", what);
					const int calls = o.calls; const int got = (*slot[i])(3); const int want = expect(m[i], 3, o);
					MC_CHECK(got == want, "result", "callable %u of kind %d returned %d, expected %d", i, m[i].kind, got, want);
					MC_CHECK(o.calls - calls == (m[i].kind == 3 || m[i].kind == 4), "call-count", "the member function was called %d times", o.calls - calls);
				}
				verify(what);
				uint64_t h = mc::mix(a.failAt, refuse ? a.requests : 0); for (unsigned q = 0; q < 2; ++q) h = mc::mix(h, slot[q] ? m[q].kind * 1000 + m[q].acc * 2 + m[q].alloc : 999999);
				mc::state(h); if (!mc::fresh(h, depth - d - 1)) break;
			}
			// every surviving target still answers with its own state
			for (unsigned i = 0; i < 2; ++i) if (slot[i] && m[i].kind) { const int want = expect(m[i], 1, o); MC_CHECK((*slot[i])(1) == want, "result", "callable %u of kind %d changed its answer", i, m[i].kind); }
			char buf[32]; snprintf(buf, sizeof buf, "kinds %d/%d", slot[0] ? m[0].kind : -1, slot[1] ? m[1].kind : -1); mc::outcome(buf);
		}
		MC_CHECK(El::alive() == base, "functor-leak", "%d functors alive after destruction", El::alive() - base);
		a.expectEmpty("after destruction"); b.expectEmpty("after destruction");
	}
}

MC_SCENARIO(histories, 3) { world<C>(mc::bound(10, 14), false); }
MC_SCENARIO(heap_histories, 3) { world<H>(mc::bound(10, 14), false); }
MC_SCENARIO(refused_allocation, 3) { world<C>(mc::bound(7, 10), true); }

MC_SCENARIO(argument_forwarding, 1)
{
	// references reach the target unchanged, values are passed once, void results work
	static track::Allocator a; const unsigned k = mc::choose(6, "signature"); mc::op("forward(%u)", k);
	switch (k)
	{
	case 0: { auto f = [](int& r) { r += 5; }; Callable<void(int&)> c(&a, f); int v = 1; c(v); MC_CHECK(v == 6, "forward", "reference argument"); break; }
	case 1: { auto f = [](const El& e) -> const El* { return &e; }; Callable<const El*(const El&)> c(&a, f); El e(3); MC_CHECK(c(e) == &e, "forward", "const reference argument is copied"); break; }
	case 2: { auto f = [](El&& e) { return El(std::move(e)).v; }; Callable<int(El&&)> c(&a, f); El e(9); MC_CHECK(c(std::move(e)) == 9 && e.v == El::Moved, "forward", "rvalue argument"); break; }
	case 3: { auto f = [](El e, int x) { return e.v + x; }; Callable<int(El, int)> c(&a, f); El e(9); MC_CHECK(c(e, 2) == 11 && e.v == 9, "forward", "value argument"); break; }
	case 4: { int hits = 0; auto f = [&hits] { ++hits; }; Callable<void()> c(&a, f); Callable<void()> d(c); c(); d(); d(); MC_CHECK(hits == 3, "forward", "captured reference"); break; }
	case 5: { auto f = [](int x) -> El { return El(x); }; Callable<El(int)> c(&a, f); MC_CHECK(c(4).v == 4, "forward", "returned object"); break; }
	}
	a.expectEmpty("after forwarding"); mc::state(k); mc::outcome("forwarded");
}

// functions and member functions see the very objects they are called with, whatever the callable went through
namespace
{
	struct Base { int v = 1; Base() = default; virtual ~Base() = default; virtual int kind() const { return 1; } };
	struct Derived : Base { int kind() const override { return 2; } };
	void addTo(int& r, int x) { r += x; }
	const void* where(const El& e) { return &e; }
	const void* whereMut(El& e) { e.v += 4; return &e; }
	int kindOf(const Base& b) { return b.kind(); }
	int& pick(int& a, int& b, bool first) { return first ? a : b; }
	int byValue(El e, int x) { e.v += x; return e.v; }
	struct Recv
	{
		void addTo(int& r, int x) { r += x; } const void* where(const El& e) { return &e; } const void* whereMut(El& e) { e.v += 4; return &e; }
		int kindOf(const Base& b) { return b.kind(); } int& pick(int& a, int& b, bool first) { return first ? a : b; } int byValue(El e, int x) { e.v += x; return e.v; }
	};
	// the callable c itself, a copy, a moved one or one that was assigned
	template <class Call, class Use> void passed(Call c, unsigned how, Use&& use)
	{
		switch (how)
		{
		case 0: use(c); break;
		case 1: { Call d(c); use(d); use(c); break; }
		case 2: { Call d(std::move(c)); use(d); MC_CHECK(!c, "emptiness", "a moved-from callable is not empty"); break; }
		case 3: { Call d(c); d.reset(); d = c; use(d); use(c); break; }
		default: { Call d(c); d = std::move(c); use(d); MC_CHECK(!c, "emptiness", "a moved-from callable is not empty"); break; }
		}
	}
	template <class Sig, class Use> void targetOf(track::Allocator& a, unsigned target, unsigned how, Sig* fn, Use&& use)
	{
		if (target == 0) passed(Callable<Sig>(&a, fn), how, use);
		else if (target == 1) { auto f = [fn](auto&&... x) -> decltype(auto) { return fn(std::forward<decltype(x)>(x)...); }; passed(Callable<Sig>(&a, f), how, use); }
		else if (target == 2) passed(HeapCallable<Sig>(fn), how, use);
		else { Callable<Sig> c(&a); c = fn; passed(c, how, use); }
	}
}
MC_SCENARIO(function_arguments, 3)
{
	static track::Allocator a; const unsigned k = mc::choose(6, "signature"), target = mc::choose(6, "target"), how = mc::choose(5, "history"); mc::op("arguments(%u, %u, %u)", k, target, how);
	static Recv recv;
	#define TARGETS(SIG, NAME, USE) if (target < 4) targetOf<SIG>(a, target, how, &NAME, USE); else if (target == 4) passed(Callable<SIG>(&a, &recv, &Recv::NAME), how, USE); else passed(HeapCallable<SIG>(&recv, &Recv::NAME), how, USE)
	switch (k)
	{
	case 0: { auto use = [](auto& c) { int v = 1; c(v, 5); c(v, 7); MC_CHECK(v == 13, "forward", "a function changed a copy of its reference argument: %d", v); }; TARGETS(void(int&, int), addTo, use); break; }
	case 1: { auto use = [](auto& c) { El e(3); MC_CHECK(c(e) == &e, "forward", "a function received a copy of its constant reference argument"); }; TARGETS(const void*(const El&), where, use); break; }
	case 2: { auto use = [](auto& c) { El e(3); MC_CHECK(c(e) == &e && e.v == 7, "forward", "a function received a copy of its reference argument"); }; TARGETS(const void*(El&), whereMut, use); break; }
	case 3: { auto use = [](auto& c) { Derived d; Base b; MC_CHECK(c(d) == 2 && c(b) == 1, "forward", "a function received a slice of its argument"); }; TARGETS(int(const Base&), kindOf, use); break; }
	case 4: { auto use = [](auto& c) { int x = 1, y = 2; MC_CHECK(&c(x, y, true) == &x && &c(x, y, false) == &y, "forward", "a function returned a reference to a copy of its argument"); }; TARGETS(int&(int&, int&, bool), pick, use); break; }
	default: { auto use = [](auto& c) { El e(9); MC_CHECK(c(e, 2) == 11 && e.v == 9, "forward", "a function changed an argument it takes by value"); }; TARGETS(int(El, int), byValue, use); break; }
	}
	#undef TARGETS
	a.expectEmpty("after calling functions"); mc::state(mc::mix(k, target * 8 + how)); mc::outcome("called");
}

// functors of every size and alignment keep all of their bytes through copies and moves
namespace
{
	template <unsigned N, unsigned A> struct alignas(A) Sized
	{
		unsigned char b[N]; explicit Sized(unsigned s) { for (unsigned i = 0; i < N; ++i) b[i] = (unsigned char)(s + i * 7); }
		int operator()(int x) { if (reinterpret_cast<uintptr_t>(this) % A) mc::fail("alignment", "a functor with alignment %u is stored at a misaligned address", A); int s = x; for (unsigned i = 0; i < N; ++i) { s = s * 31 + b[i]; s %= 1000003; } ++b[N - 1]; return s; }
	};
	template <class F> void sized(unsigned shift)
	{
		(void)shift; track::Allocator a("alloc0"); const unsigned id = 3; mc::op("functor(size %zu, align %zu)", sizeof(F), alignof(F));
		{
			F ref(id), ref2(id + 9);
			C c(&a, ref); C d(c); C e(std::move(c)); MC_CHECK(!c, "emptiness", "a moved-from callable is not empty");
			F r1(id), r2(id); MC_CHECK(e(5) == r1(5) && e(5) == r1(5), "result", "a moved functor of %zu bytes answers wrongly", sizeof(F)); MC_CHECK(d(5) == r2(5), "result", "a copied functor of %zu bytes answers wrongly", sizeof(F));
			d = ref2; F r3(id + 9); MC_CHECK(d(1) == r3(1), "result", "an assigned functor of %zu bytes answers wrongly", sizeof(F)); e = d; MC_CHECK(e(1) == r3(1), "result", "a copy of a used functor of %zu bytes answers wrongly", sizeof(F));
			d = F(id); F r4(id); MC_CHECK(d(2) == r4(2), "result", "a functor of %zu bytes assigned over another answers wrongly", sizeof(F));
			H h(ref); H g(h); F r5(id); MC_CHECK(g(4) == r5(4), "result", "a heap functor of %zu bytes answers wrongly", sizeof(F)); h = std::move(g); MC_CHECK(h(4) == r5(4), "result", "a moved heap functor of %zu bytes answers wrongly", sizeof(F));
			mc::state(mc::mix(sizeof(F), alignof(F)));
		}
		a.expectEmpty("after destruction"); mc::outcome("sized");
	}
	template <unsigned A, unsigned... N> void sizes(std::integer_sequence<unsigned, N...>) { const unsigned n = mc::choose(sizeof...(N), "size"); ((N == n ? sized<Sized<N + 1, A>>(0) : void()), ...); }
}
MC_SCENARIO(functor_sizes, 2)
{
	using S = std::make_integer_sequence<unsigned, 80>;
	switch (mc::choose(5, "alignment")) { case 0: sizes<1>(S{}); break; case 1: sizes<2>(S{}); break; case 2: sizes<4>(S{}); break; case 3: sizes<8>(S{}); break; default: sizes<16>(S{}); break; }
}

// functions with further, unnamed arguments
namespace
{
	int sumInto(int& total, int n, ...) { va_list l; va_start(l, n); for (int i = 0; i < n; ++i) total += va_arg(l, int); va_end(l); return total; }
	int other(int& total, int n, ...) { total -= n; return -total; }
}
MC_SCENARIO(unnamed_arguments, 3)
{
	using V = Callable<int(int&, int, ...)>; static track::Allocator a;
	V c(mc::choose(2, "constructed") ? V(&a, &sumInto) : V(&sumInto)); const unsigned how = mc::choose(5, "history"), n = mc::choose(4, "arguments"); mc::op("unnamed(%u, %u)", how, n);
	auto use = [n](V& f, bool isOther) { int t = 2, r = n == 0 ? f(t, 0) : n == 1 ? f(t, 1, 10) : n == 2 ? f(t, 2, 10, short(20)) : f(t, 3, 10, short(20), 'a'); const int want = isOther ? 2 - int(n) : 2 + (n > 0 ? 10 : 0) + (n > 1 ? 20 : 0) + (n > 2 ? 'a' : 0); MC_CHECK(t == want && r == (isOther ? -want : want), "forward", "a function with unnamed arguments left %d and returned %d", t, r); };
	switch (how)
	{
	case 0: use(c, false); break;
	case 1: { V d(c); use(d, false); use(c, false); break; }
	case 2: { V d(std::move(c)); use(d, false); break; }
	case 3: { V d(&other); use(d, true); d = c; use(d, false); use(c, false); break; }
	default: { V d(&other); V e(d); d = &sumInto; use(d, false); use(e, true); e = std::move(c); use(e, false); break; }
	}
	a.expectEmpty("after calling functions with unnamed arguments"); mc::state(mc::mix(how, n)); mc::outcome("called");
}
