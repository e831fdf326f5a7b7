// C01: Vector / HeapVector against std::vector, every operation history up to a bound, on two vectors
// with two allocators that exchange contents, optionally with one failing allocation.
#include "mc.h"
#include "track.h"
#include "spvgentwo/Vector.h"
#include "common/HeapVector.h"
#include "common/Algorithms.h"
#include <vector>
#include <utility>
using namespace spvgentwo;
using track::El;

namespace
{
	int val(const El& e) { e.use("read"); return e.v; }
	int val(int e) { return e; }
	int val(unsigned char e) { return e; }
	template <class T> constexpr bool tracked() { return std::is_same_v<T, El>; }
	template <class T> T mk(int v) { return T(v); }

	template <class T>
	struct World
	{
		track::Allocator a1{ "A" }, a2{ "B" };
		Vector<T>* v[2] = { nullptr, nullptr };
		std::vector<int> m[2];
		std::vector<T> pool;
		int next = 1;
		int base = 0; // live elements outside the vectors

		World()
		{
			base = El::alive();
			v[0] = new Vector<T>(&a1); v[1] = new Vector<T>(&a2);
		}

		void verify(const char* when)
		{
			size_t live = 0;
			for (int k = 0; k < 2; ++k)
			{
				Vector<T>& x = *v[k]; const Vector<T>& c = x;
				MC_CHECK(c.size() == m[k].size(), "size", "after %s: vector %d has size %zu, expected %zu", when, k, size_t(c.size()), m[k].size());
				MC_CHECK(c.empty() == m[k].empty(), "empty", "after %s: vector %d empty()=%d with %zu elements", when, k, int(c.empty()), m[k].size());
				MC_CHECK(c.capacity() >= c.size(), "capacity", "after %s: capacity %zu < size %zu", when, size_t(c.capacity()), size_t(c.size()));
				for (size_t i = 0; i < m[k].size(); ++i)
				{
					const int got = val(c[i]);
					MC_CHECK(got == m[k][i], "content", "after %s: vector %d element %zu is %d, expected %d (size %zu)", when, k, i, got, m[k][i], m[k].size());
					MC_CHECK(&x[i] == &c[i] && &c[i] == c.data() + i, "access", "after %s: operator[] and data() disagree", when);
				}
				size_t n = 0; for (auto& e : x) { MC_CHECK(val(e) == m[k][n], "iterate", "after %s: iteration differs at %zu", when, n); ++n; }
				MC_CHECK(n == m[k].size(), "iterate", "after %s: iterated %zu of %zu elements", when, n, m[k].size());
				if (!m[k].empty())
				{
					MC_CHECK(val(x.front()) == m[k].front() && val(c.front()) == m[k].front(), "front", "after %s: front()", when);
					MC_CHECK(val(x.back()) == m[k].back() && val(c.back()) == m[k].back(), "back", "after %s: back()", when);
				}
				live += m[k].size();
			}
			if (tracked<T>())
			{
				const int n = El::alive() - base;
				MC_CHECK(n == int(live), "lifetime-count", "after %s: %d elements alive, %zu expected (leaked or doubly destroyed)", when, n, live);
			}
		}
		uint64_t key()
		{
			uint64_t h = 7;
			for (int k = 0; k < 2; ++k)
			{
				h = mc::mix(h, v[k]->size()); h = mc::mix(h, v[k]->capacity());
				h = mc::mix(h, v[k]->getAllocator() == &a1 ? 1 : v[k]->getAllocator() == &a2 ? 2 : 3);
				h = mc::mix(h, v[k]->data() != nullptr);
			}
			return h;
		}
		// large: sizes far beyond those small histories reach; counts and sizes are then chosen relative to the present ones
		bool large = false;
		unsigned pick(unsigned limit, unsigned t)
		{
			if (!large) return mc::choose(limit, "size");
			const unsigned n = unsigned(m[t].size()), c = unsigned(v[t]->capacity()); const unsigned l[9] = { 0, 1, n / 2, n ? n - 1 : 0, n, n + 1, c, c + 1, 2 * n + 3 }; return l[mc::choose(9, "size")];
		}
		unsigned place(unsigned t, unsigned extra)
		{
			const unsigned n = unsigned(m[t].size()); if (!large || n < 8) return mc::choose(n + extra, "pos");
			const unsigned l[6] = { 0, 1, n / 2, n - 1, n, n + 1 }; return l[mc::choose(4 + extra, "pos")];
		}
		bool own = false; // arguments are elements of the vector
		unsigned some(size_t n, const char* label) { const unsigned l[3] = { 0, unsigned(n / 2), unsigned(n - 1) }; return l[mc::choose(n > 2 ? 3 : unsigned(n), label)] % unsigned(n); }
		void grown(unsigned depth)
		{
			large = true; const unsigned sizes[] = { 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300 };
			const unsigned n = sizes[mc::choose(sizeof sizes / sizeof *sizes, "elements")], how = mc::choose(4, "filled"), other = mc::choose(3, "other vector");
			mc::op("fill(%u elements, way %u)", n, how);
			for (unsigned k = 0; k < 2; ++k)
			{
				const unsigned want = k == 0 ? n : other == 0 ? 0 : other == 1 ? n + 5 : n / 3; Vector<T>& x = *v[k];
				if (how == 1) { if (!x.reserve(want)) mc::fail("reserve-fail", "reserve(%u) failed", want); }
				if (how == 3) { base += tracked<T>() ? int(want) : 0; std::vector<T> src; src.reserve(want); for (unsigned i = 0; i < want; ++i) { src.push_back(mk<T>(next)); m[k].push_back(next++); } if (want) x.insert(0, src.data(), want); base -= tracked<T>() ? int(want) : 0; continue; }
				for (unsigned i = 0; i < want; ++i) { if (how == 2) { T e = mk<T>(next); x.insert(0, e); m[k].insert(m[k].begin(), next++); } else { x.emplace_back(next); m[k].push_back(next++); } }
			}
			run(depth, false);
		}
		// refused: number of allocator refusals before the operation
		void run(unsigned depth, bool faults)
		{
			if (faults) { a1.failAt = 1 + mc::choose(3, "failing allocation of A"); a2.failAt = a1.failAt; }
			verify("construction");
			for (unsigned d = 0; d < depth && !mc::aborting(); ++d)
			{
				step();
				verify(what);
				uint64_t k = key();
				if (faults) k = mc::mix(k, mc::mix(a1.requests < a1.failAt ? a1.failAt - a1.requests : 99, a2.requests < a2.failAt ? a2.failAt - a2.requests : 99));
				mc::state(k);
				if (!mc::fresh(k, depth - d - 1)) break;
			}
			char o[64]; snprintf(o, sizeof o, "sizes %zu/%zu", m[0].size(), m[1].size()); mc::outcome(o);
			delete v[0]; delete v[1];
			if (tracked<T>()) MC_CHECK(El::alive() == base, "lifetime-count", "after destruction %d elements are still alive", El::alive() - base);
			a1.expectEmpty("after destruction"); a2.expectEmpty("after destruction");
		}

		char what[96];
		bool failed(unsigned before) { return a1.refused + a2.refused > before; }

		void step()
		{
			const unsigned refused = a1.refused + a2.refused;
			const unsigned t = mc::choose(2, "target"); const unsigned o = 1 - t;
			Vector<T>& x = *v[t]; auto& mm = m[t];
			const bool noAlloc = x.getAllocator() == nullptr;
			switch (own ? 15 + mc::choose(5, "operation") : mc::choose(15, "operation"))
			{
			case 0:
			{
				snprintf(what, sizeof what, "emplace_back"); mc::op("emplace_back(v%u, %d)", t, next);
				const int n = next++; T* p = x.emplace_back(n);
				if (noAlloc || failed(refused)) { if (p == nullptr) break; }
				MC_CHECK(p != nullptr, "emplace-null", "emplace_back returned nullptr although memory was available");
				mm.push_back(n); MC_CHECK(x.size() == mm.size() && p == &x[mm.size() - 1], "emplace-ptr", "emplace_back returned the wrong element");
				break;
			}
			case 1: case 2: // insert at every position, 0..3 elements from an array
			{
				const unsigned pos = place(t, mm.empty() ? 1 : 2), cnt = large ? (const unsigned[4]){ 0, 1, 3, 20 }[mc::choose(4, "count")] : mc::choose(4, "count");
				snprintf(what, sizeof what, "insert(pos %u, count %u) into size %zu", pos, cnt, mm.size());
				mc::op("insert(v%u, pos %u, %u elements)", t, pos, cnt);
				const int given = large ? 20 : 3; base += tracked<T>() ? given : 0;
				std::vector<T> arr; arr.reserve(given); for (int i = 0; i < given; ++i) arr.push_back(mk<T>(next + i));
				std::vector<int> vals; for (unsigned i = 0; i < cnt; ++i) vals.push_back(next + int(i));
				next += given;
				auto it = x.insert(pos, arr.data(), cnt);
				for (int i = 0; i < given; ++i) MC_CHECK(val(arr[i]) == next - given + i, "insert-source", "insert changed its source array");
				arr.clear(); base -= tracked<T>() ? given : 0;
				if (pos > mm.size()) { MC_CHECK(it == nullptr, "insert-range", "insert at %u behind the end (size %zu) did not return nullptr", pos, mm.size()); break; }
				if (it == nullptr) { MC_CHECK(noAlloc || failed(refused) || (cnt == 0 && mm.empty()), "insert-null", "insert(pos %u, count %u) into size %zu failed although memory was available", pos, cnt, mm.size()); break; }
				mm.insert(mm.begin() + pos, vals.begin(), vals.end());
				MC_CHECK(it == x.begin() + pos, "insert-iterator", "insert returned position %td, expected %u", it - x.begin(), pos);
				break;
			}
			case 3: // single element insert
			{
				const unsigned pos = place(t, 1);
				snprintf(what, sizeof what, "insert one at %u into size %zu", pos, mm.size()); mc::op("insert1(v%u, pos %u)", t, pos);
				const int n = next++; T e = mk<T>(n); base += tracked<T>();
				auto it = x.insert(pos, e);
				base -= tracked<T>();
				if (it == nullptr) { MC_CHECK(noAlloc || failed(refused), "insert-null", "insert of one element failed although memory was available"); break; }
				mm.insert(mm.begin() + pos, n);
				MC_CHECK(it == x.begin() + pos, "insert-iterator", "insert returned position %td, expected %u", it - x.begin(), pos);
				break;
			}
			case 4: case 5: // resize, with and without initial value
			{
				const bool init = mc::flip("init value"); const unsigned n = pick(6, t);
				snprintf(what, sizeof what, "resize(%u) from size %zu capacity %zu", n, mm.size(), size_t(x.capacity())); mc::op("resize(v%u, %u, init %d)", t, n, int(init));
				const int iv = init ? next++ : 0; T e = mk<T>(iv); base += tracked<T>();
				const bool ok = x.resize(n, init ? &e : nullptr);
				base -= tracked<T>();
				if (!ok) { MC_CHECK(noAlloc || failed(refused), "resize-fail", "resize failed although memory was available"); break; }
				mm.resize(n, iv);
				break;
			}
			case 6:
			{
				const unsigned n = pick(7, t);
				snprintf(what, sizeof what, "reserve(%u)", n); mc::op("reserve(v%u, %u)", t, n);
				const bool ok = x.reserve(n);
				if (!ok) { MC_CHECK(noAlloc || failed(refused), "reserve-fail", "reserve failed although memory was available"); break; }
				MC_CHECK(x.capacity() >= n, "reserve-capacity", "reserve(%u) left capacity %zu", n, size_t(x.capacity()));
				break;
			}
			case 7: snprintf(what, sizeof what, "clear"); mc::op("clear(v%u)", t); x.clear(); mm.clear(); break;
			case 8:
			{
				const unsigned pos = place(t, 2); const unsigned c = large ? (const unsigned[4]){ 0, 1, 3, 20 }[mc::choose(4, "count")] : mc::choose(4, "count");
				snprintf(what, sizeof what, "assign(pos %u, count %d) on size %zu", pos, c == 3 ? -1 : int(c), mm.size()); mc::op("assign(v%u, pos %u, count %d)", t, pos, c == 3 ? -1 : int(c));
				const int n = next++; T e = mk<T>(n); base += tracked<T>();
				x.assign(e, pos, c == 3 ? sgt_size_max : c);
				base -= tracked<T>();
				for (size_t i = pos; i < mm.size() && (c == 3 || i < pos + c); ++i) mm[i] = n;
				break;
			}
			case 9:
			{
				snprintf(what, sizeof what, "copy assignment of size %zu to size %zu", m[o].size(), mm.size()); mc::op("copy_assign(v%u = v%u)", t, o);
				Vector<T>& r = (x = *v[o]); MC_CHECK(&r == &x, "assign-return", "copy assignment does not return the target");
				// a refused allocation cannot be served: the target may then stay as it was
				if (((noAlloc && v[o]->getAllocator() == nullptr) || failed(refused)) && x.size() == mm.size() && mm != m[o]) break;
				mm = m[o]; break;
			}
			case 10:
			{
				snprintf(what, sizeof what, "move assignment"); mc::op("move_assign(v%u = move(v%u))", t, o);
				Vector<T>& r = (x = std::move(*v[o])); MC_CHECK(&r == &x, "assign-return", "move assignment does not return the target");
				mm = m[o]; m[o].clear(); break;
			}
			case 11:
			{
				const unsigned k = mc::choose(2, "self");
				snprintf(what, sizeof what, "self assignment"); mc::op("self_assign(v%u)", t);
				Vector<T>* alias = &x; if (k == 0) x = *alias; else x = std::move(*alias);
				break;
			}
			case 12: // copy/move construction, the copy replaces the other vector
			{
				const unsigned k = mc::choose(2, "construct");
				snprintf(what, sizeof what, k ? "move construction" : "copy construction"); mc::op(k ? "move_construct(from v%u)" : "copy_construct(from v%u)", t);
				Vector<T>* n = k ? new Vector<T>(std::move(x)) : new Vector<T>(static_cast<const Vector<T>&>(x));
				if (k == 0 && failed(refused)) { MC_CHECK(n->size() == 0 || n->size() == mm.size(), "copy-failed", "failed copy construction has size %zu", size_t(n->size())); m[o].clear(); if (n->size()) m[o] = mm; }
				else { m[o] = mm; if (k) mm.clear(); }
				delete v[o]; v[o] = n;
				break;
			}
			case 13: // fresh vectors from arrays and argument lists
			{
				const unsigned k = mc::choose(4, "constructor");
				snprintf(what, sizeof what, "construction variant %u", k); mc::op("construct(v%u, variant %u)", t, k);
				T arr[3] = { mk<T>(next), mk<T>(next + 1), mk<T>(next + 2) }; base += tracked<T>() ? 3 : 0;
				std::vector<int> e{ next, next + 1, next + 2 }; next += 3;
				track::Allocator& al = t ? a2 : a1;
				Vector<T>* n = nullptr;
				if (k == 0) n = new Vector<T>(&al, arr);
				else if (k == 1) { n = new Vector<T>(&al, arr, 2u); e.pop_back(); }
				else if (k == 2) n = new Vector<T>(&al, arr[0], arr[1], arr[2]);
				else { n = new Vector<T>(&al, sgt_size_t(3)); e.clear(); if (!failed(refused)) MC_CHECK(n->capacity() >= 3, "reserve-capacity", "size constructor reserved %zu", size_t(n->capacity())); }
				base -= tracked<T>() ? 3 : 0;
				if (failed(refused)) e.clear();
				delete v[t]; v[t] = n; mm = e;
				break;
			}
			case 14: // array assignment
			{
				snprintf(what, sizeof what, "array assignment to size %zu", mm.size()); mc::op("array_assign(v%u)", t);
				T arr[2] = { mk<T>(next), mk<T>(next + 1) }; base += tracked<T>() ? 2 : 0; next += 2;
				x = arr;
				base -= tracked<T>() ? 2 : 0;
				if ((noAlloc || failed(refused)) && x.size() == mm.size() && (mm.empty() || val(x[0]) != next - 2)) break;
				mm = { next - 2, next - 1 };
				break;
			}
			// the arguments are elements of the vector itself
			case 15: { const int n = next++; mc::op("emplace_back(v%u, %d)", t, n); snprintf(what, sizeof what, "emplace_back"); if (x.emplace_back(n) != nullptr) mm.push_back(n); else MC_CHECK(noAlloc, "emplace-null", "emplace_back failed"); break; }
			case 16:
			{
				if (mm.empty()) break; const unsigned k = some(mm.size(), "element"); const int n = mm[k]; snprintf(what, sizeof what, "emplace_back of element %u of %zu, capacity %zu", k, mm.size(), size_t(x.capacity())); mc::op("emplace_back(v%u, own element %u)", t, k);
				T* p = x.emplace_back(x[k]); MC_CHECK(p != nullptr, "emplace-null", "emplace_back returned nullptr although memory was available"); mm.push_back(n); MC_CHECK(p == &x[mm.size() - 1], "emplace-ptr", "emplace_back returned the wrong element"); break;
			}
			case 17:
			{
				if (mm.empty()) break; const unsigned k = some(mm.size(), "element"), pos = some(mm.size() + 1, "pos"), left = unsigned(mm.size()) - k, cnt = left == 1 ? 1 : (const unsigned[3]){ 1, 2, left }[mc::choose(left > 2 ? 3 : 2, "count")];
				snprintf(what, sizeof what, "insert of own elements %u to %u at %u of %zu", k, k + cnt, pos, mm.size()); mc::op("insert(v%u, pos %u, %u own elements from %u)", t, pos, cnt, k); const std::vector<int> vals(mm.begin() + k, mm.begin() + k + cnt);
				auto it = cnt == 1 && k % 2 ? x.insert(pos, x[k]) : x.insert(pos, &x[k], cnt); MC_CHECK(it == x.begin() + pos, "insert-iterator", "insert of own elements at %u returned another position or nothing", pos); mm.insert(mm.begin() + pos, vals.begin(), vals.end()); break;
			}
			case 18:
			{
				if (mm.empty()) break; const unsigned k = some(mm.size(), "element"), more = mc::choose(3, "more"); const unsigned n = more == 0 ? unsigned(x.capacity()) : more == 1 ? unsigned(x.capacity()) + 1 : unsigned(mm.size()) + 1; const int value = mm[k];
				snprintf(what, sizeof what, "resize(%u) with own element %u of %zu", n, k, mm.size()); mc::op("resize(v%u, %u, own element %u)", t, n, k); MC_CHECK(x.resize(n, &x[k]), "resize-fail", "resize failed although memory was available"); mm.resize(n, value); break;
			}
			case 19:
			{
				if (mm.empty()) break; const unsigned k = some(mm.size(), "element"), pos = some(mm.size(), "pos"); const int value = mm[k]; snprintf(what, sizeof what, "assign(own element %u from %u on)", k, pos); mc::op("assign(v%u, own element %u, pos %u)", t, k, pos);
				x.assign(x[k], pos, sgt_size_max); for (size_t i = pos; i < mm.size(); ++i) mm[i] = value; break;
			}
			}
		}
	};
}

MC_SCENARIO(histories_tracked, 3) { World<El>* w = new World<El>; w->run(mc::bound(6, 10), false); delete w; }
MC_SCENARIO(histories_int, 3) { World<int>* w = new World<int>; w->run(mc::bound(5, 9), false); delete w; }
MC_SCENARIO(histories_byte, 3) { World<unsigned char>* w = new World<unsigned char>; w->run(mc::bound(4, 8), false); delete w; }
MC_SCENARIO(refused_allocation, 3) { World<El>* w = new World<El>; w->run(mc::bound(5, 8), true); delete w; }

MC_SCENARIO(large_tracked, 3) { World<El>* w = new World<El>; w->grown(mc::bound(2, 3)); delete w; }
MC_SCENARIO(large_int, 3) { World<int>* w = new World<int>; w->grown(mc::bound(1, 3)); delete w; }

MC_SCENARIO(own_elements, 3) { World<El>* w = new World<El>; w->own = true; w->run(mc::bound(5, 7), false); delete w; }
MC_SCENARIO(own_elements_int, 3) { World<int>* w = new World<int>; w->own = true; w->run(mc::bound(5, 6), false); delete w; }
MC_SCENARIO(large_own_elements, 3) { World<El>* w = new World<El>; w->own = true; w->grown(mc::bound(1, 2)); delete w; }

// long histories of one growing vector: every growth step of push/insert patterns
MC_SCENARIO(long_growth, 2)
{
	const unsigned pattern = mc::choose(6, "pattern"), start = mc::choose(4, "reserve");
	const int base = El::alive();
	{
		track::Allocator a; std::vector<int> m;
		{
			Vector<El> v(&a); if (start) v.reserve(start * 3);
			for (int i = 0; i < 200; ++i)
			{
				mc::op("grow(%d)", i);
				switch (pattern)
				{
				case 0: v.emplace_back(i); m.push_back(i); break;
				case 1: { El e(i); v.insert(0, e); m.insert(m.begin(), i); break; }
				case 2: { El e(i); v.insert(v.size() / 2, e); m.insert(m.begin() + m.size() / 2, i); break; }
				case 3: { El e[3] = { i, i + 1000, i + 2000 }; v.insert(v.size() / 3, e); int q[3] = { i, i + 1000, i + 2000 }; m.insert(m.begin() + m.size() / 3, q, q + 3); break; }
				case 4: v.emplace_back(i, 7); m.push_back(i * 100 + 7); if (i % 7 == 6) { v.resize(v.size() / 2); m.resize(m.size() / 2); } break;
				case 5: v.emplace_back_args(El(i), El(i + 1), El(i + 2)); m.push_back(i); m.push_back(i + 1); m.push_back(i + 2); if (i % 11 == 10) { v.clear(); m.clear(); } break;
				}
				MC_CHECK(v.size() == m.size(), "size", "pattern %u step %d: size %zu, expected %zu", pattern, i, size_t(v.size()), m.size());
				for (size_t k = 0; k < m.size(); ++k) MC_CHECK(val(v[k]) == m[k], "content", "pattern %u step %d: element %zu is %d, expected %d", pattern, i, k, val(v[k]), m[k]);
				MC_CHECK(El::alive() - base == int(m.size()), "lifetime-count", "pattern %u step %d: %d alive of %zu", pattern, i, El::alive() - base, m.size());
				mc::state(mc::mix(v.size(), v.capacity()));
			}
		}
		a.expectEmpty("after destruction");
	}
	MC_CHECK(El::alive() == base, "lifetime-count", "elements alive after destruction");
	char o[32]; snprintf(o, 32, "pattern %u", pattern); mc::outcome(o);
}

MC_SCENARIO(heap_vector, 2)
{
	const int base = El::alive();
	{
		const unsigned k = mc::choose(9, "construction");
		mc::op("heap_construct(%u)", k);
		El arr[3] = { 1, 2, 3 }; std::vector<int> m;
		HeapVector<El>* v = nullptr; HeapVector<El> src(arr); HeapVector<El> other(El(9), El(8));
		switch (k)
		{
		case 0: v = new HeapVector<El>(); break;
		case 1: v = new HeapVector<El>(sgt_size_t(4)); MC_CHECK(v->capacity() >= 4, "reserve-capacity", "HeapVector(4) capacity"); break;
		case 2: v = new HeapVector<El>(arr, 2u); m = { 1, 2 }; break;
		case 3: v = new HeapVector<El>(arr); m = { 1, 2, 3 }; break;
		case 4: v = new HeapVector<El>(El(5), El(6), El(7)); m = { 5, 6, 7 }; break;
		case 5: v = new HeapVector<El>(src); m = { 1, 2, 3 }; break;
		case 6: v = new HeapVector<El>(std::move(src)); m = { 1, 2, 3 }; MC_CHECK(src.empty(), "moved-from", "moved-from HeapVector not empty"); break;
		case 7: v = new HeapVector<El>(); *v = src; m = { 1, 2, 3 }; break;
		case 8: v = new HeapVector<El>(src); *v = std::move(other); m = { 9, 8 }; break;
		}
		const unsigned appends = mc::choose(4, "appends"); for (unsigned i = 0; i < appends; ++i) { mc::op("append(%u)", i); v->emplace_back(int(50 + i)); m.push_back(50 + i); }
		MC_CHECK(v->size() == m.size(), "size", "heap vector variant %u: size %zu, expected %zu", k, size_t(v->size()), m.size());
		for (size_t i = 0; i < m.size(); ++i) MC_CHECK(val((*v)[i]) == m[i], "content", "heap vector variant %u: element %zu is %d, expected %d", k, i, val((*v)[i]), m[i]);
		const unsigned q = mc::choose(3, "algorithm");
		mc::op("algorithm(%u)", q);
		const Vector<El>& cv = *v; Vector<El>& mv = *v;
		if (q == 0) { auto t = algo::transform(cv, [](const El& e) { return El(val(e) * 2); }); MC_CHECK(t.size() == m.size(), "transform", "transform size"); for (size_t i = 0; i < m.size(); ++i) MC_CHECK(val(t[i]) == m[i] * 2, "transform", "transform element %zu", i); }
		if (q == 1) { for (int x = 0; x < 60; ++x) { bool e = false; for (int y : m) e |= y == x; MC_CHECK(algo::any(cv, [x](const El& el) { return val(el) == x; }) == e, "any", "any(%d)", x); } }
		if (q == 2) { for (int x = 0; x < 60; ++x) { bool e = true; for (int y : m) e &= y < x; MC_CHECK(algo::all(cv, [x](const El& el) { return val(el) < x; }) == e, "all", "all(<%d)", x); } }
		(void)mv;
		char o[32]; snprintf(o, 32, "variant %u", k); mc::outcome(o);
		mc::state(mc::mix(k, m.size()));
		delete v;
	}
	MC_CHECK(El::alive() == base, "lifetime-count", "%d elements alive after destruction", El::alive() - base);
}
