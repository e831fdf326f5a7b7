// C02: List / Entry / EntryIterator against a plain sequence with element addresses.
#include "mc.h"
#include "track.h"
#include "spvgentwo/List.h"
#include "common/HeapList.h"
#include <vector>
#include <utility>
using namespace spvgentwo;
using track::El;

namespace
{
	using L = List<El>;
	struct Node { int v; Entry<El>* e; };

	struct World
	{
		track::Allocator a1{ "A" }, a2{ "B" };
		L* v[2]; std::vector<Node> m[2];
		std::vector<Node> loose; track::Allocator* looseAlloc = nullptr;
		int next = 1, base; char what[96];

		World() { base = El::alive(); v[0] = new L(&a1); v[1] = new L(&a2); }

		std::vector<Entry<El>*> entries(L& x) { std::vector<Entry<El>*> r; unsigned n = 0; for (auto it = x.begin(); it != x.end() && n < 4096; ++it, ++n) r.push_back(it.entry()); return r; }
		void adopt(int k) { auto r = entries(*v[k]); for (size_t i = 0; i < m[k].size() && i < r.size(); ++i) m[k][i].e = r[i]; }

		void verify()
		{
			size_t live = loose.size();
			for (int k = 0; k < 2; ++k)
			{
				L& x = *v[k]; const L& c = x; auto& mm = m[k];
				MC_CHECK(c.size() == mm.size(), "size", "after %s: list %d reports size %zu, expected %zu", what, k, size_t(c.size()), mm.size());
				MC_CHECK(c.empty() == mm.empty(), "empty", "after %s: list %d empty()=%d with %zu elements", what, k, int(c.empty()), mm.size());
				size_t i = 0;
				for (auto it = c.begin(); it != c.end(); ++it, ++i)
				{
					MC_CHECK(i < mm.size(), "forward", "after %s: forward walk of list %d has more than %zu elements", what, k, mm.size());
					it->use("read");
					MC_CHECK((*it).v == mm[i].v, "forward", "after %s: list %d element %zu is %d, expected %d", what, k, i, (*it).v, mm[i].v);
					MC_CHECK(it.entry() == mm[i].e, "address", "after %s: list %d element %zu moved to another node", what, k, i);
				}
				MC_CHECK(i == mm.size(), "forward", "after %s: forward walk of list %d has %zu of %zu elements", what, k, i, mm.size());
				i = mm.size();
				for (auto it = c.last(); it != nullptr; --it)
				{
					MC_CHECK(i > 0, "backward", "after %s: backward walk of list %d has more than %zu elements", what, k, mm.size());
					--i; MC_CHECK(it.entry() == mm[i].e, "backward", "after %s: backward walk of list %d differs at element %zu", what, k, i);
				}
				MC_CHECK(i == 0, "backward", "after %s: backward walk of list %d stops %zu elements short", what, k, i);
				MC_CHECK(c.lastEntry() == (mm.empty() ? nullptr : mm.back().e), "last", "after %s: lastEntry()", what);
				if (!mm.empty()) MC_CHECK(x.front().v == mm.front().v && x.back().v == mm.back().v, "front-back", "after %s: front()/back()", what);
				live += mm.size();
				track::Allocator* al = static_cast<track::Allocator*>(c.getAllocator());
				MC_CHECK(mm.empty() || al != nullptr, "allocator", "after %s: non-empty list without allocator", what);
			}
			for (auto& n : loose) { n.e->inner().use("read"); MC_CHECK(n.e->inner().v == n.v, "detached", "after %s: detached entry changed", what); }
			MC_CHECK(El::alive() - base == int(live), "lifetime-count", "after %s: %d elements alive, %zu expected", what, El::alive() - base, live);
			// each block of an allocator belongs to a node of the list that carries that allocator
			size_t n1 = 0, n2 = 0;
			for (int k = 0; k < 2; ++k) { if (v[k]->getAllocator() == &a1) n1 += m[k].size(); if (v[k]->getAllocator() == &a2) n2 += m[k].size(); }
			if (looseAlloc == &a1) n1 += loose.size();
			if (looseAlloc == &a2) n2 += loose.size();
			MC_CHECK(a1.live.size() == n1 && a2.live.size() == n2, "node-balance", "after %s: allocator blocks %zu/%zu, nodes %zu/%zu", what, a1.live.size(), a2.live.size(), n1, n2);
		}
		uint64_t key()
		{
			uint64_t h = 3;
			for (int k = 0; k < 2; ++k) { h = mc::mix(h, m[k].size()); h = mc::mix(h, v[k]->getAllocator() == &a1 ? 1 : v[k]->getAllocator() == &a2 ? 2 : 3); }
			h = mc::mix(h, loose.size()); h = mc::mix(h, looseAlloc == &a1 ? 1 : looseAlloc == &a2 ? 2 : 3);
			return h;
		}
		// equality pattern of the two lists decides comparison outcomes, so it is part of the state
		uint64_t eqKey()
		{
			uint64_t h = 11; std::vector<int> seen;
			for (int k = 0; k < 2; ++k) for (auto& n : m[k]) { size_t i = 0; for (; i < seen.size() && seen[i] != n.v; ++i) {} if (i == seen.size()) seen.push_back(n.v); h = mc::mix(h, i); }
			return h;
		}

		// large: lists far longer than small histories reach
		bool large = false;
		unsigned place(unsigned t, unsigned extra)
		{
			const unsigned n = unsigned(m[t].size()); if (!large || n < 8) return mc::choose(n + extra, "pos");
			const unsigned l[6] = { 0, 1, n / 2, n - 2, n - 1, n }; return l[mc::choose(5 + extra, "pos")];
		}
		void grown(unsigned depth)
		{
			large = true; const unsigned sizes[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257 };
			const unsigned n = sizes[mc::choose(sizeof sizes / sizeof *sizes, "elements")], how = mc::choose(3, "filled"), other = mc::choose(3, "other list"); mc::op("fill(%u elements, way %u)", n, how);
			for (unsigned k = 0; k < 2; ++k)
			{
				const unsigned want = k == 0 ? n : other == 0 ? 0 : other == 1 ? n : n / 3; L& x = *v[k]; const int first = k == 1 && other == 1 ? m[0].front().v : next; std::vector<Node> r;
				for (unsigned i = 0; i < want; ++i)
				{
					if (how == 0) r.push_back({ first + int(i), x.emplace_back_entry(first + int(i)) });
					else if (how == 1) { const int q = first + int(want - 1 - i); r.insert(r.begin(), { q, x.emplace_front_entry(q) }); }
					else { const int q = first + int(i); auto it = x.begin() + i / 2; Entry<El>* e = x.insert_before(it, q); r.insert(r.begin() + i / 2, { q, e }); }
				}
				m[k] = r; next = first + int(want) > next ? first + int(want) : next;
			}
			run(depth, false);
		}
		void step(bool faults)
		{
			const unsigned t = mc::choose(2, "target"), o = 1 - t;
			L& x = *v[t]; auto& mm = m[t];
			const bool noAlloc = x.getAllocator() == nullptr;
			track::Allocator* al = static_cast<track::Allocator*>(x.getAllocator());
			const unsigned refused = a1.refused + a2.refused;
			auto refusedNow = [&] { return a1.refused + a2.refused > refused; };
			snprintf(what, sizeof what, "nothing");
			switch (mc::choose(17, "operation"))
			{
			case 0: case 1:
			{
				if (noAlloc) return;
				const bool front = mc::flip("front"), ref = faults ? false : mc::flip("by reference"); const int n = next++;
				snprintf(what, sizeof what, "emplace_%s", front ? "front" : "back"); mc::op("emplace_%s(l%u)", front ? "front" : "back", t);
				Entry<El>* e = nullptr;
				if (ref) { El& r = front ? x.emplace_front(n) : x.emplace_back(n); e = front ? x.begin().entry() : x.lastEntry(); MC_CHECK(&r == &e->inner(), "emplace-ref", "%s returned another element", what); }
				else e = front ? x.emplace_front_entry(n) : x.emplace_back_entry(n);
				if (refusedNow()) { MC_CHECK(e == nullptr, "refused", "%s returned an entry although the allocation was refused", what); break; }
				MC_CHECK(e != nullptr, "emplace-null", "%s returned nullptr", what);
				mm.insert(front ? mm.begin() : mm.end(), Node{ n, e });
				break;
			}
			case 2: case 3: // insert before / after every position
			{
				if (noAlloc) return;
				const bool before = mc::flip("before");
				if (!before && mm.empty()) return;
				const unsigned pos = place(t, before ? 1 : 0); const int n = next++;
				snprintf(what, sizeof what, "insert_%s position %u of %zu", before ? "before" : "after", pos, mm.size()); mc::op("insert_%s(l%u, %u)", before ? "before" : "after", t, pos);
				auto it = x.begin() + pos;
				Entry<El>* e = before ? x.insert_before(it, n) : x.insert_after(it, n);
				if (refusedNow()) { MC_CHECK(e == nullptr, "refused", "%s returned an entry although the allocation was refused", what); break; }
				MC_CHECK(e != nullptr, "insert-null", "%s returned nullptr", what);
				mm.insert(mm.begin() + pos + (before ? 0 : 1), Node{ n, e });
				break;
			}
			case 4: // erase every position
			{
				if (mm.empty()) return;
				const unsigned pos = place(t, 0);
				snprintf(what, sizeof what, "erase position %u of %zu", pos, mm.size()); mc::op("erase(l%u, %u)", t, pos);
				Entry<El>* r = x.erase(x.begin() + pos);
				MC_CHECK(r == (pos + 1 < mm.size() ? mm[pos + 1].e : nullptr), "erase-return", "%s did not return the following entry", what);
				mm.erase(mm.begin() + pos);
				break;
			}
			case 5: // detach without destruction; the entry stays alive and can be put back
			{
				if (mm.empty() || !loose.empty()) return;
				const unsigned pos = place(t, 0);
				snprintf(what, sizeof what, "detach position %u of %zu", pos, mm.size()); mc::op("detach(l%u, %u)", t, pos);
				x.erase(x.begin() + pos, false);
				loose.push_back(mm[pos]); looseAlloc = al; mm.erase(mm.begin() + pos);
				break;
			}
			case 6: // re-attach to a list on the same allocator
			{
				if (loose.empty() || al != looseAlloc) return;
				const bool front = mc::flip("front");
				snprintf(what, sizeof what, "%s detached entry", front ? "prepend" : "append"); mc::op("attach(l%u, front %d)", t, int(front));
				Entry<El>* r = front ? x.prepend_entry(loose[0].e) : x.append_entry(loose[0].e);
				MC_CHECK(r == loose[0].e, "attach-return", "%s returned another entry", what);
				mm.insert(front ? mm.begin() : mm.end(), loose[0]); loose.clear();
				break;
			}
			case 7:
			{
				if (mm.empty()) return;
				const bool front = mc::flip("front"); snprintf(what, sizeof what, "pop_%s of %zu", front ? "front" : "back", mm.size()); mc::op("pop(l%u, front %d)", t, int(front));
				int got; { El e = front ? x.pop_front() : x.pop_back(); got = e.v; }
				const int want = front ? mm.front().v : mm.back().v;
				MC_CHECK(got == want, "pop-value", "%s returned %d, expected %d", what, got, want);
				mm.erase(front ? mm.begin() : mm.end() - 1);
				break;
			}
			case 8: snprintf(what, sizeof what, "clear"); mc::op("clear(l%u)", t); x.clear(); mm.clear(); break;
			case 9:
			{
				if (faults) return; // a refused copy is not defined by the model
				snprintf(what, sizeof what, "copy assignment of size %zu to size %zu", m[o].size(), mm.size()); mc::op("copy_assign(l%u = l%u)", t, o);
				L& r = (x = *v[o]); MC_CHECK(&r == &x, "assign-return", "copy assignment does not return the target");
				mm = m[o]; adopt(t); break;
			}
			case 10:
			{
				snprintf(what, sizeof what, "move assignment"); mc::op("move_assign(l%u = move(l%u))", t, o);
				x = std::move(*v[o]); mm = m[o]; m[o].clear(); break;
			}
			case 11:
			{
				const unsigned k = mc::choose(2, "kind"); snprintf(what, sizeof what, "self assignment"); mc::op("self_assign(l%u)", t);
				L* alias = &x; if (k) x = std::move(*alias); else x = *alias;
				break;
			}
			case 12:
			{
				if (faults) return;
				const unsigned k = mc::choose(2, "construct");
				snprintf(what, sizeof what, k ? "move construction" : "copy construction"); mc::op("construct_from(l%u, move %u)", t, k);
				if (!k && noAlloc && !mm.empty()) return;
				L* n = k ? new L(std::move(x)) : new L(static_cast<const L&>(x));
				m[o].clear(); delete v[o]; v[o] = n; m[o] = mm; if (k) mm.clear(); else adopt(o);
				break;
			}
			case 13:
			{
				const unsigned k = mc::choose(2, "allocator"); snprintf(what, sizeof what, "setAllocator"); mc::op("setAllocator(l%u, %u)", t, k);
				IAllocator* prev = x.getAllocator(); x.setAllocator(k ? &a2 : &a1);
				MC_CHECK(x.getAllocator() == (prev ? prev : (k ? &a2 : &a1)), "set-allocator", "setAllocator must only take effect when none was set");
				break;
			}
			case 14: // comparison, after optionally making values equal
			{
				snprintf(what, sizeof what, "compare"); mc::op("compare(l%u, l%u)", t, o);
				std::vector<int> p, q; for (auto& n : mm) p.push_back(n.v); for (auto& n : m[o]) q.push_back(n.v);
				MC_CHECK((x == *v[o]) == (p == q) && (x != *v[o]) == (p != q), "equality", "operator== of lists with %zu and %zu elements", p.size(), q.size());
				break;
			}
			case 15: // queries
			{
				snprintf(what, sizeof what, "find"); mc::op("find(l%u)", t);
				for (int n = 0; n <= next; ++n)
				{
					Entry<El>* want = nullptr; for (auto& q : mm) if (q.v == n) { want = q.e; break; }
					El probe(n);
					MC_CHECK(x.find(probe).entry() == want, "find", "find(%d)", n);
					MC_CHECK(x.contains(probe) == (want != nullptr), "contains", "contains(%d)", n);
					MC_CHECK(x.find_if([n](const El& e) { e.use("read"); return e.v == n; }).entry() == want, "find_if", "find_if(%d)", n);
				}
				for (unsigned i = 0; i <= mm.size() + 1; ++i)
				{
					auto it = x.begin() + i; Entry<El>* want = i < mm.size() ? mm[i].e : nullptr;
					MC_CHECK(it.entry() == want && (it == nullptr) == (want == nullptr), "iterator-plus", "begin()+%u", i);
					auto b = x.last() - i; want = i < mm.size() ? mm[mm.size() - 1 - i].e : nullptr;
					MC_CHECK(b.entry() == want, "iterator-minus", "last()-%u", i);
					if (it != nullptr)
					{
						MC_CHECK(it.next().entry() == (i + 1 < mm.size() ? mm[i + 1].e : nullptr), "iterator-next", "next of %u", i);
						MC_CHECK(it.prev().entry() == (i > 0 ? mm[i - 1].e : nullptr), "iterator-prev", "prev of %u", i);
						auto c = it; auto old = c++; MC_CHECK(old == it && c == it.next(), "iterator-post", "post increment at %u", i);
						auto d = it; old = d--; MC_CHECK(old == it && d == it.prev(), "iterator-post", "post decrement at %u", i);
						MC_CHECK(it.entry()->first() == mm.front().e && it.entry()->last() == mm.back().e, "entry-ends", "first()/last() of entry %u", i);
						Entry<El>* conv = it; MC_CHECK(conv == it.entry() && it->v == (*it).v, "iterator-conversion", "conversion of %u", i);
					}
				}
				break;
			}
			case 16: // variadic construction
			{
				if (faults) return;
				snprintf(what, sizeof what, "variadic construction"); mc::op("construct(l%u)", t);
				L* n = new L(t ? &a2 : &a1, El(next), El(next + 1), El(next + 2));
				mm.clear(); delete v[t]; v[t] = n;
				for (int i = 0; i < 3; ++i) mm.push_back({ next + i, nullptr });
				adopt(t); next += 3;
				break;
			}
			}
		}
		void run(unsigned depth, bool faults)
		{
			if (faults) { const unsigned n = 1 + mc::choose(4, "failing allocation"); a1.failAt = a2.failAt = n; }
			snprintf(what, sizeof what, "construction"); verify();
			for (unsigned d = 0; d < depth && !mc::aborting(); ++d)
			{
				step(faults); verify();
				uint64_t k = mc::mix(key(), eqKey()); mc::state(k);
				if (faults) k = mc::mix(k, mc::mix(a1.requests < a1.failAt ? a1.failAt - a1.requests : 99, a2.requests < a2.failAt ? a2.failAt - a2.requests : 99));
				if (!mc::fresh(k, depth - d - 1)) break;
			}
			char o[48]; snprintf(o, sizeof o, "sizes %zu/%zu", m[0].size(), m[1].size()); mc::outcome(o);
			delete v[0]; delete v[1];
			for (auto& n : loose) looseAlloc->destruct(n.e);
			a1.expectEmpty("after destruction"); a2.expectEmpty("after destruction");
			MC_CHECK(El::alive() == base, "lifetime-count", "%d elements alive after destruction", El::alive() - base);
		}
	};
}

MC_SCENARIO(histories, 3) { World* w = new World; w->run(mc::bound(7, 9), false); delete w; }
MC_SCENARIO(refused_allocation, 3) { World* w = new World; w->run(mc::bound(6, 8), true); delete w; }

MC_SCENARIO(large, 3) { World* w = new World; w->grown(mc::bound(2, 3)); delete w; }

MC_SCENARIO(entry_chains, 2)
{
	track::Allocator a; const int base = El::alive();
	std::vector<int> m{ 0 }; Entry<El>* cur = Entry<El>::create(&a, 0); unsigned at = 0; int next = 1;
	for (unsigned d = 0; d < mc::bound(5, 7); ++d)
	{
		switch (mc::choose(6, "operation"))
		{
		case 0: mc::op("emplace_back(%d)", next); MC_CHECK(cur->emplace_back(&a, next)->inner().v == next, "emplace_back", "entry value"); m.push_back(next++); break;
		case 1: mc::op("emplace_front(%d)", next); MC_CHECK(cur->emplace_front(&a, next)->inner().v == next, "emplace_front", "entry value"); m.insert(m.begin(), next++); ++at; break;
		case 2: mc::op("insertBefore(%d)", next); cur->insertBefore(&a, next); m.insert(m.begin() + at, next++); ++at; break;
		case 3: mc::op("insertAfter(%d)", next); cur->insertAfter(&a, next); m.insert(m.begin() + at + 1, next++); break;
		case 4: { mc::op("move(%u)", at); unsigned to = mc::choose(m.size(), "to"); while (at < to) { cur = cur->next(); ++at; } while (at > to) { cur = cur->prev(); --at; } break; }
		case 5: { if (m.size() == 1) break; mc::op("remove(%u)", at); Entry<El>* p = cur->prev(); Entry<El>* n = cur->remove(&a); m.erase(m.begin() + at); if (n) cur = n; else { cur = p; --at; } break; }
		}
		Entry<El>* e = cur->first(); size_t i = 0;
		for (; e; e = e->next(), ++i) { MC_CHECK(i < m.size() && (**e).v == m[i] && (*e)->v == m[i], "chain", "forward walk differs at %zu", i); if (e->next()) MC_CHECK(e->next()->prev() == e, "chain-link", "next/prev mismatch at %zu", i); }
		MC_CHECK(i == m.size() && cur->inner().v == m[at], "chain", "chain has %zu of %zu entries", i, m.size());
		mc::state(mc::mix(m.size(), at));
	}
	cur->first()->destroyList(&a); a.expectEmpty("after destroyList");
	MC_CHECK(El::alive() == base, "lifetime-count", "entries alive");
	mc::outcome("chain");
}

MC_SCENARIO(heap_list, 2)
{
	const int base = El::alive();
	{
		const unsigned k = mc::choose(6, "construction"); std::vector<int> m; mc::op("heap_construct(%u)", k);
		HeapList<El> src(El(1), El(2), El(3)); HeapList<El> other(El(7)); HeapList<El>* v = nullptr;
		switch (k)
		{
		case 0: v = new HeapList<El>(); break;
		case 1: v = new HeapList<El>(El(4), El(5)); m = { 4, 5 }; break;
		case 2: v = new HeapList<El>(src); m = { 1, 2, 3 }; break;
		case 3: v = new HeapList<El>(std::move(src)); m = { 1, 2, 3 }; break;
		case 4: v = new HeapList<El>(other); *v = src; m = { 1, 2, 3 }; break;
		case 5: v = new HeapList<El>(src); *v = std::move(other); m = { 7 }; break;
		}
		v->emplace_back(50); m.push_back(50); v->emplace_front(60); m.insert(m.begin(), 60);
		size_t i = 0; for (const El& e : *v) { MC_CHECK(i < m.size() && e.v == m[i], "content", "heap list variant %u element %zu", k, i); ++i; }
		MC_CHECK(i == m.size() && v->size() == m.size(), "size", "heap list variant %u size", k);
		mc::state(k); mc::outcome("heap list"); delete v;
	}
	MC_CHECK(El::alive() == base, "lifetime-count", "%d elements alive after destruction", El::alive() - base);
}
