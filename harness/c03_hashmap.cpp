// C03: HashMap against an abstract multimap; few keys, few buckets, so that keys are forced to share buckets.
#include "mc.h"
#include "track.h"
#include "spvgentwo/HashMap.h"
#include "spvgentwo/String.h"
#include "common/HeapHashMap.h"
#include <vector>
#include <utility>
#include <algorithm>
#include <string>
using namespace spvgentwo;
using track::El;

namespace
{
	Hash64 identity(const int& k) { return Hash64(sgt_uint64_t(k)); }
	// same low part for different keys: equal bucket, different hash, for every bucket count below 2^8
	Hash64 highBits(const int& k) { return Hash64(5u, unsigned(k)); }

	template <class Key> struct Keys;
	template <> struct Keys<int> { static int get(unsigned i) { return int(i); } static HashMap<int, El>::HashFunc fn(unsigned v) { return v == 0 ? &hash<int> : v == 1 ? &identity : &highBits; } static constexpr unsigned fns = 3; };
	template <> struct Keys<Hash64> { static Hash64 get(unsigned i) { return Hash64(i * 2u, i & 1); } static HashMap<Hash64, El>::HashFunc fn(unsigned) { return &hash<Hash64>; } static constexpr unsigned fns = 1; };

	template <class Key>
	struct World
	{
		using M = HashMap<Key, El>;
		struct Item { unsigned key; int v; const El* addr; };
		unsigned K = 3;
		track::Allocator a1{ "A" }, a2{ "B" };
		M* v[2] = { nullptr, nullptr }; std::vector<Item> m[2]; bool usable[2] = { true, true }; unsigned buckets = 1, fnv[2] = { 0, 0 };
		int next = 1, base = 0; char what[96];

		bool eq(const Key& a, unsigned k) { return a == Keys<Key>::get(k); }
		unsigned keyOf(const Key& a) { for (unsigned k = 0; k < K; ++k) if (eq(a, k)) return k; mc::fail("foreign-key", "the map holds a key that was never inserted"); }

		void verify()
		{
			size_t live = 0;
			for (int i = 0; i < 2; ++i)
			{
				const M& x = *v[i]; auto& mm = m[i]; live += mm.size();
				MC_CHECK(x.elements() == mm.size(), "elements", "after %s: map %d reports %u elements, expected %zu", what, i, x.elements(), mm.size());
				// iteration visits every entry exactly once
				std::vector<const El*> seen; unsigned n = 0;
				for (auto it = x.begin(); it != x.end(); ++it)
				{
					MC_CHECK(++n <= mm.size(), "iterate", "after %s: iteration of map %d yields more than %zu entries", what, i, mm.size());
					auto& kv = *it; kv.value.use("read");
					const unsigned k = keyOf(kv.key); bool found = false;
					for (auto& q : mm) if (q.addr == &kv.value) { found = true; MC_CHECK(q.key == k && q.v == kv.value.v, "iterate", "after %s: iteration yields key %u value %d, expected key %u value %d", what, k, kv.value.v, q.key, q.v); }
					MC_CHECK(found, "iterate", "after %s: iteration yields an entry that is not stored (key %u)", what, k);
					MC_CHECK(std::find(seen.begin(), seen.end(), &kv.value) == seen.end(), "iterate", "after %s: iteration visits key %u twice", what, k);
					seen.push_back(&kv.value);
					MC_CHECK(bool(it) && it->key == kv.key, "iterator", "after %s: iterator to an entry is not valid", what);
				}
				MC_CHECK(n == mm.size(), "iterate", "after %s: iteration visits %u of %zu entries", what, n, mm.size());
				n = 0; for (auto it = x.begin(); it != x.end(); it++) { ++n; MC_CHECK(n <= mm.size(), "iterate", "post increment"); }
				MC_CHECK(n == mm.size(), "iterate", "after %s: post-increment iteration visits %u of %zu entries", what, n, mm.size());
				unsigned inBuckets = 0; for (unsigned b = 0; b < x.getBucketCount(); ++b) inBuckets += unsigned(x.getBucket(b).size());
				MC_CHECK(inBuckets == mm.size(), "buckets", "after %s: buckets hold %u entries, expected %zu", what, inBuckets, mm.size());
				for (unsigned k = 0; k < K; ++k)
				{
					const Key key = Keys<Key>::get(k); std::vector<Item> want; for (auto& q : mm) if (q.key == k) want.push_back(q);
					const Hash64 h = hashOf(key, i);
					El* g = x.get(h); El* g2 = x[key2(key)];
					MC_CHECK((g != nullptr) == !want.empty(), "get", "after %s: get(key %u) %s", what, k, g ? "finds an entry that is not stored" : "misses the entry");
					if constexpr (!std::is_same_v<Key, Hash64>) { El* g3 = x.get(key); MC_CHECK(g3 == g && g2 == g, "get", "after %s: get and operator[] disagree for key %u", what, k); MC_CHECK(x.count(key) == want.size(), "count", "after %s: count(key %u) is %u, expected %zu", what, k, x.count(key), want.size()); }
					else (void)g2;
					if (g) { bool ok = false; for (auto& q : want) ok |= q.addr == g; MC_CHECK(ok, "get", "after %s: get(key %u) returns an entry of another key (value %d)", what, k, g->v); }
					if constexpr (!std::is_same_v<Key, Hash64>) MC_CHECK(x.count(h) == want.size(), "count", "after %s: count(hash of key %u) is %u, expected %zu", what, k, x.count(h), want.size());
					auto f = x.find(key);
					MC_CHECK((f != x.end()) == !want.empty(), "find", "after %s: find(key %u)", what, k);
					if (f != x.end()) { bool ok = false; for (auto& q : want) ok |= q.addr == &f->value; MC_CHECK(ok && eq(f->key, k), "find", "after %s: find(key %u) returns another key's entry", what, k); }
					unsigned c = 0;
					for (auto& node : x.getRange(h))
					{
						MC_CHECK(++c <= want.size(), "range", "after %s: range of key %u yields more than its %zu entries", what, k, want.size());
						bool ok = false; for (auto& q : want) ok |= q.addr == &node.kv.value;
						MC_CHECK(ok && eq(node.kv.key, k), "range", "after %s: range of key %u yields an entry of key %u", what, k, keyOf(node.kv.key));
					}
					MC_CHECK(c == want.size(), "range", "after %s: range of key %u yields %u of %zu entries", what, k, c, want.size());
					MC_CHECK(x.getRange(h).empty() == want.empty(), "range-empty", "after %s: range of key %u empty()", what, k);
				}
			}
			MC_CHECK(El::alive() - base == int(live), "lifetime-count", "after %s: %d values alive, %zu stored", what, El::alive() - base, live);
		}
		const Key& key2(const Key& k) { return k; }
		Hash64 hashOf(const Key& k, int i) { if constexpr (std::is_same_v<Key, Hash64>) return k; else return Keys<Key>::fn(fnv[i])(k); }

		uint64_t key()
		{
			uint64_t h = mc::mix(buckets, fnv[0] * 4 + fnv[1]);
			for (int i = 0; i < 2; ++i)
			{
				h = mc::mix(h, usable[i]); h = mc::mix(h, v[i]->getBucketCount());
				for (auto it = v[i]->begin(); it != v[i]->end(); ++it) h = mc::mix(h, keyOf(it->key));
				h = mc::mix(h, 77);
			}
			return h;
		}
		// large: many keys and buckets; the keys operated on are then the first, the middle, the last and an absent one
		bool large = false;
		unsigned aKey() { if (!large) return mc::choose(K, "key"); const unsigned l[5] = { 0, 1, K / 2, K - 2, K - 1 }; return l[mc::choose(5, "key")]; }
		void grown(unsigned depth)
		{
			large = true; base = El::alive();
			const unsigned sizes[] = { 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 130 }, nb[] = { 1, 3, 8, 16, 33, 64, 100, 128, 255, 256, 257 };
			const unsigned n = sizes[mc::choose(sizeof sizes / sizeof *sizes, "keys")], other = mc::choose(2, "other map"); buckets = nb[mc::choose(sizeof nb / sizeof *nb, "buckets")]; fnv[0] = mc::choose(Keys<Key>::fns, "hash function"); fnv[1] = (fnv[0] + 1) % Keys<Key>::fns; K = n + 1;
			const unsigned twice = mc::choose(3, "every n-th key twice"); mc::op("fill(%u keys, %u buckets)", n, buckets);
			v[0] = new M(&a1, buckets, Keys<Key>::fn(fnv[0])); v[1] = new M(&a2, buckets == 8 ? 5 : 8, Keys<Key>::fn(fnv[1]));
			auto put = [&](unsigned i, unsigned k) { const int q = next++; auto& node = v[i]->emplace(Keys<Key>::get(k), q); m[i].push_back({ k, q, &node.kv.value }); };
			for (unsigned k = 0; k < n; ++k) { put(0, k); if (other) put(1, n - k); }
			if (twice) for (unsigned k = 0; k < n; k += twice * 3) put(0, k);
			snprintf(what, sizeof what, "filling"); verify(); history(depth);
		}
		void run(unsigned depth)
		{
			base = El::alive();
			const unsigned nb[3] = { 1, 2, 5 }; // the two maps differ in allocator, bucket count and hash function, so nothing of the target may survive a move into it
			const unsigned bi = mc::choose(3, "buckets"); buckets = nb[bi]; fnv[0] = mc::choose(Keys<Key>::fns, "hash function"); fnv[1] = (fnv[0] + 1) % Keys<Key>::fns;
			mc::note("buckets %u/%u hash %u/%u", buckets, nb[(bi + 1) % 3], fnv[0], fnv[1]);
			v[0] = new M(&a1, buckets, Keys<Key>::fn(fnv[0])); v[1] = new M(&a2, nb[(bi + 1) % 3], Keys<Key>::fn(fnv[1]));
			snprintf(what, sizeof what, "construction"); verify(); history(depth);
		}
		void history(unsigned depth)
		{
			for (unsigned d = 0; d < depth && !mc::aborting(); ++d)
			{
				step(); verify();
				const uint64_t k = key(); mc::state(k);
				if (!mc::fresh(k, depth - d - 1)) break;
			}
			char o[48]; snprintf(o, sizeof o, "entries %zu/%zu", m[0].size(), m[1].size()); mc::outcome(o);
			delete v[0]; delete v[1];
			MC_CHECK(El::alive() == base, "lifetime-count", "%d values alive after destruction", El::alive() - base);
			a1.expectEmpty("after destruction"); a2.expectEmpty("after destruction");
		}
		void step()
		{
			const unsigned t = mc::choose(2, "target"), o = 1 - t; M& x = *v[t]; auto& mm = m[t];
			snprintf(what, sizeof what, "nothing");
			switch (mc::choose(8, "operation"))
			{
			case 0:
			{
				if (!usable[t]) return;
				const unsigned k = aKey(); const int n = next++;
				snprintf(what, sizeof what, "emplace(key %u)", k); mc::op("emplace(m%u, key %u, %d)", t, k, n);
				auto& node = x.emplace(Keys<Key>::get(k), n);
				MC_CHECK(eq(node.kv.key, k) && node.kv.value.v == n, "emplace", "emplace returned another node");
				mm.push_back({ k, n, &node.kv.value }); break;
			}
			case 1:
			{
				if (!usable[t]) return;
				const unsigned k = aKey(); const int n = next++;
				snprintf(what, sizeof what, "emplaceUnique(key %u)", k); mc::op("emplaceUnique(m%u, key %u, %d)", t, k, n);
				auto& node = x.emplaceUnique(Keys<Key>::get(k), n);
				MC_CHECK(eq(node.kv.key, k), "emplace-unique", "emplaceUnique(key %u) returned a node of key %u", k, keyOf(node.kv.key));
				bool had = false; for (auto& q : mm) if (q.key == k) { had = true; }
				if (had) { bool ok = false; for (auto& q : mm) if (q.key == k && q.addr == &node.kv.value && q.v == node.kv.value.v) ok = true; MC_CHECK(ok, "emplace-unique", "emplaceUnique(key %u) did not return the stored entry", k); }
				else { MC_CHECK(node.kv.value.v == n, "emplace-unique", "emplaceUnique(key %u) stored %d", k, node.kv.value.v); mm.push_back({ k, n, &node.kv.value }); }
				break;
			}
			case 2: // erase through an iterator
			{
				const unsigned k = aKey();
				snprintf(what, sizeof what, "erase(find(key %u))", k); mc::op("erase(m%u, key %u)", t, k);
				auto it = x.find(Keys<Key>::get(k));
				bool have = false; for (auto& q : mm) have |= q.key == k;
				if (!have) { auto r = x.erase(it); MC_CHECK(r == x.end(), "erase-end", "erase(end()) did not return end()"); break; }
				const El* gone = &it->value; auto nx = it.next(); const El* after = nx == x.end() ? nullptr : &nx->value;
				auto r = x.erase(it);
				MC_CHECK((r == x.end() ? nullptr : &r->value) == after, "erase-next", "erase did not return the following entry");
				for (size_t i = 0; i < mm.size(); ++i) if (mm[i].addr == gone) { mm.erase(mm.begin() + i); break; }
				break;
			}
			case 3:
			{
				const unsigned k = aKey();
				snprintf(what, sizeof what, "eraseRange(key %u)", k); mc::op("eraseRange(m%u, key %u)", t, k);
				unsigned want = 0; for (size_t i = 0; i < mm.size();) if (mm[i].key == k) { mm.erase(mm.begin() + i); ++want; } else ++i;
				const unsigned got = x.eraseRange(Keys<Key>::get(k));
				MC_CHECK(got == want, "erase-range", "eraseRange(key %u) reports %u removed entries, expected %u", k, got, want);
				break;
			}
			case 4: snprintf(what, sizeof what, "clear"); mc::op("clear(m%u)", t); x.clear(); mm.clear(); break;
			case 5:
			{
				snprintf(what, sizeof what, "move assignment"); mc::op("move_assign(m%u = move(m%u))", t, o);
				x = std::move(*v[o]); mm = m[o]; m[o].clear(); usable[t] = usable[o]; usable[o] = false; fnv[t] = fnv[o]; break;
			}
			case 6:
			{
				const unsigned k = mc::choose(2, "kind");
				if (k == 0) { snprintf(what, sizeof what, "self move"); mc::op("self_move(m%u)", t); M* alias = &x; x = std::move(*alias); break; }
				snprintf(what, sizeof what, "move construction"); mc::op("move_construct(m%u from m%u)", o, t);
				M* n = new M(std::move(x)); delete v[o]; v[o] = n; m[o] = mm; mm.clear(); usable[o] = usable[t]; usable[t] = false; fnv[o] = fnv[t]; break;
			}
			case 7: // reverse lookup by value
			{
				snprintf(what, sizeof what, "findKey"); mc::op("findKey(m%u)", t);
				for (auto& q : mm) { El probe(q.v); Key* k = x.findKey(probe); MC_CHECK(k != nullptr && eq(*k, q.key), "find-key", "findKey(%d)", q.v); }
				El absent(-5); MC_CHECK(x.findKey(absent) == nullptr, "find-key", "findKey of an absent value");
				break;
			}
			}
		}
	};
}

MC_SCENARIO(int_keys, 5) { World<int>* w = new World<int>; w->run(mc::bound(7, 9)); delete w; }
MC_SCENARIO(hash_keys, 4) { World<Hash64>* w = new World<Hash64>; w->run(mc::bound(7, 9)); delete w; }

MC_SCENARIO(many_int_keys, 4) { World<int>* w = new World<int>; w->grown(mc::bound(1, 2)); delete w; }
MC_SCENARIO(many_hash_keys, 4) { World<Hash64>* w = new World<Hash64>; w->grown(mc::bound(1, 2)); delete w; }

// string keys: content decides equality, and the map owns its key
MC_SCENARIO(string_keys, 3)
{
	track::Allocator a; const char* names[4] = { "", "a", "b", "ab" };
	{
		const unsigned nb[2] = { 1, 7 };
		HashMap<String, int> x(&a, nb[mc::choose(2, "buckets")]); std::vector<std::pair<std::string, int>> m;
		for (unsigned d = 0; d < mc::bound(5, 6); ++d)
		{
			const unsigned k = mc::choose(4, "key"); int n = int(d) + 1;
			switch (mc::choose(3, "operation"))
			{
			case 0: { mc::op("emplaceUnique(%s)", names[k]); String key(&a, names[k]); bool had = false; for (auto& p : m) had |= p.first == names[k];
				auto& node = x.emplaceUnique(std::move(key), n); bool ok = !had && node.kv.value == n; for (auto& p : m) ok |= p.first == names[k] && p.second == node.kv.value; MC_CHECK(ok, "emplace-unique", "emplaceUnique(%s) value %d", names[k], node.kv.value); if (!had) m.push_back({ names[k], n }); break; }
			case 1: { mc::op("eraseRange(%s)", names[k]); unsigned want = 0; for (size_t i = 0; i < m.size();) if (m[i].first == names[k]) { m.erase(m.begin() + i); ++want; } else ++i; MC_CHECK(x.eraseRange(String(&a, names[k])) == want, "erase-range", "eraseRange(%s)", names[k]); break; }
			case 2: { mc::op("emplace(%s)", names[k]); x.emplace(String(&a, names[k]), n); m.push_back({ names[k], n }); break; }
			}
			MC_CHECK(x.elements() == m.size(), "elements", "%u elements, expected %zu", x.elements(), m.size());
			for (auto& q : names)
			{
				unsigned want = 0; for (auto& p : m) want += p.first == q;
				String key(&a, q); MC_CHECK(x.count(key) == want, "count", "count(%s) = %u, expected %u", q, x.count(key), want);
				int* v = x.get(key); MC_CHECK((v != nullptr) == (want != 0), "get", "get(%s)", q);
				bool ok = v == nullptr; for (auto& p : m) ok |= p.first == q && v && *v == p.second; MC_CHECK(ok, "get", "get(%s) returned %d", q, v ? *v : -1);
			}
			size_t n2 = 0; for (auto& kv : x) { bool ok = false; for (auto& p : m) ok |= p.first == kv.key.c_str() && p.second == kv.value; MC_CHECK(ok, "iterate", "iteration yields %s=%d", kv.key.c_str(), kv.value); ++n2; }
			MC_CHECK(n2 == m.size(), "iterate", "iteration yields %zu of %zu", n2, m.size());
			uint64_t h = 1; for (auto& p : m) h = mc::mix(h, mc::hashStr(p.first)); mc::state(h);
		}
		char o[32]; snprintf(o, 32, "entries %zu", m.size()); mc::outcome(o);
	}
	a.expectEmpty("after destruction");
}

MC_SCENARIO(heap_map_and_initializer, 2)
{
	const unsigned k = mc::choose(4, "construction"); mc::op("construct(%u)", k); const int base = El::alive();
	{
		HeapHashMap<int, El> src(1, El(10), 2, El(20), 3, El(30)); HeapHashMap<int, El> one(7, El(70));
		std::vector<std::pair<int, int>> want;
		HeapHashMap<int, El>* x = nullptr;
		switch (k)
		{
		case 0: x = new HeapHashMap<int, El>(); break;
		case 1: x = new HeapHashMap<int, El>(3u); break;
		case 2: x = new HeapHashMap<int, El>(std::move(src)); want = { {1,10},{2,20},{3,30} }; break;
		case 3: x = new HeapHashMap<int, El>(std::move(one)); *x = std::move(src); want = { {1,10},{2,20},{3,30} }; break;
		}
		for (int i = 100; i < 300; ++i) { x->emplaceUnique(i, i * 2); want.push_back({ i, i * 2 }); }
		for (auto& w : want) { El* e = x->get(w.first); MC_CHECK(e && e->v == w.second && x->count(w.first) == 1, "get", "variant %u key %d", k, w.first); }
		MC_CHECK(x->elements() == want.size() && x->get(999) == nullptr, "elements", "variant %u: %u elements, expected %zu", k, x->elements(), want.size());
		size_t n = 0; for (auto& kv : *x) { (void)kv; ++n; } MC_CHECK(n == want.size(), "iterate", "variant %u iterates %zu of %zu", k, n, want.size());
		mc::state(k); mc::outcome("initializer"); delete x;
	}
	MC_CHECK(El::alive() == base, "lifetime-count", "values alive after destruction");
}
