// C04: String against std::string over a small alphabet; integer formatting against printf-style reference.
#include "mc.h"
#include "track.h"
#include "spvgentwo/String.h"
#include "common/HeapString.h"
#include <string>
#include <utility>
#include <vector>
using namespace spvgentwo;

namespace
{
	Hash64 fnv(const std::string& s) { sgt_uint64_t h = 0xcbf29ce484222325ull; for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; } return Hash64(h); }
	const char* const lits[5] = { "", "a", "ab", "ba", "\xC3\xA9" };

	struct World
	{
		track::Allocator a1{ "A" }, a2{ "B" };
		String* v[2]; std::string m[2]; bool raw[2] = { true, true }; // raw: never held text, storage may be unset
		char what[1024];

		World() { v[0] = new String(&a1); v[1] = new String(&a2); }

		// large: texts far longer than small histories reach
		bool large = false, own = false;
		const char* text() { static const char* const longer[5] = { "", "b", "0123456789abcdef", "The quick brown fox jumps over the lazy dog", "\xC3\xA9" }; const unsigned i = mc::choose(5, "text"); return large ? longer[i] : lits[i]; }
		unsigned place(unsigned t, unsigned extra)
		{
			const unsigned n = unsigned(m[t].size()); if (!large || n < 8) return mc::choose(n + extra, "pos");
			const unsigned l[7] = { 0, 1, n / 2, n - 2, n - 1, n, n + 1 }; return l[mc::choose(5 + extra, "pos")];
		}
		void grown(unsigned depth)
		{
			large = true; const unsigned sizes[] = { 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300 };
			const unsigned n = sizes[mc::choose(sizeof sizes / sizeof *sizes, "length")], how = mc::choose(4, "filled"), other = mc::choose(4, "other string"); mc::op("fill(%u characters, way %u)", n, how);
			for (unsigned k = 0; k < 2; ++k)
			{
				const unsigned want = k == 0 ? n : other == 0 ? 0 : other == 1 ? n : other == 2 ? n + 1 : n / 3; std::string s; for (unsigned i = 0; i < want; ++i) s.push_back(char('a' + (i * 7 + i / 26) % 26));
				if (k == 1 && other == 1 && mc::flip("last character differs")) s.back() = '#';
				String& x = *v[k]; if (s.empty()) continue;
				if (how == 0) x.append(s.c_str()); else if (how == 1) for (char c : s) x.emplace_back(c); else if (how == 2) x = s.c_str(); else { x.append(s.c_str(), s.size() / 2 + 1); x.insert(x.size(), s.c_str() + s.size() / 2 + 1); }
				m[k] = s; raw[k] = false;
			}
			run(depth);
		}

		void verify()
		{
			for (int k = 0; k < 2; ++k)
			{
				String& x = *v[k]; const String& c = x; const std::string& mm = m[k];
				MC_CHECK(c.size() == mm.size(), "size", "after %s: string %d has size %zu, expected %zu (\"%s\")", what, k, size_t(c.size()), mm.size(), mm.c_str());
				MC_CHECK(c.empty() == mm.empty(), "empty", "after %s: string %d (\"%s\") reports empty()=%d", what, k, mm.c_str(), int(c.empty()));
				if (!mm.empty() || (!raw[k] && c.data() != nullptr))
				{
					MC_CHECK(c.c_str() != nullptr, "c_str", "after %s: c_str() of string %d is null", what, k);
					for (size_t i = 0; i < mm.size(); ++i) MC_CHECK(c.c_str()[i] == mm[i] && c[i] == mm[i], "content", "after %s: string %d character %zu is %d, expected %d (\"%s\")", what, k, i, c.c_str()[i], mm[i], mm.c_str());
					MC_CHECK(c.c_str()[mm.size()] == '\0', "terminator", "after %s: string %d (\"%s\") is not terminated", what, k, mm.c_str());
				}
				if (!mm.empty()) MC_CHECK(x.front() == mm.front() && x.back() == mm.back() && c.back() == mm.back(), "front-back", "after %s: front()/back() of \"%s\"", what, mm.c_str());
				std::string it; for (char ch : x) it.push_back(ch);
				MC_CHECK(it == mm, "iterate", "after %s: iteration yields \"%s\", expected \"%s\"", what, it.c_str(), mm.c_str());
				MC_CHECK(hash(c) == fnv(mm), "hash", "after %s: hash of \"%s\" is not the FNV-1a hash of its characters", what, mm.c_str());
				FNV1aHasher hs; MC_CHECK(hs(mm.c_str()) == fnv(mm), "hash", "hash of a C string \"%s\"", mm.c_str());
				MC_CHECK(c == mm.c_str(), "compare-cstr", "after %s: string %d does not compare equal to its value \"%s\"", what, k, mm.c_str());
				for (auto l : lits)
				{
					MC_CHECK((c == l) == (mm == l), "compare-cstr", "after %s: \"%s\" == \"%s\"", what, mm.c_str(), l);
					String ls(&a1, l); MC_CHECK((c == ls) == (mm == l) && (c != ls) == (mm != l), "compare", "after %s: String(\"%s\") vs String(\"%s\")", what, mm.c_str(), l);
				}
			}
			MC_CHECK((*v[0] == *v[1]) == (m[0] == m[1]), "compare", "after %s: \"%s\" == \"%s\"", what, m[0].c_str(), m[1].c_str());
			MC_CHECK((*v[0] != *v[1]) == (m[0] != m[1]), "compare-ne", "after %s: \"%s\" != \"%s\"", what, m[0].c_str(), m[1].c_str());
		}
		uint64_t key()
		{
			uint64_t h = 5;
			for (int k = 0; k < 2; ++k)
			{
				h = mc::mix(h, mc::hashStr(m[k])); h = mc::mix(h, v[k]->capacity()); h = mc::mix(h, v[k]->empty()); h = mc::mix(h, v[k]->data() != nullptr);
				h = mc::mix(h, raw[k]); h = mc::mix(h, v[k]->getAllocator() == &a1 ? 1 : v[k]->getAllocator() == &a2 ? 2 : 3);
			}
			return h;
		}
		void run(unsigned depth)
		{
			snprintf(what, sizeof what, "construction"); verify();
			for (unsigned d = 0; d < depth && !mc::aborting(); ++d)
			{
				step(); verify();
				const uint64_t k = key(); mc::state(k);
				if (!mc::fresh(k, depth - d - 1)) break;
			}
			char o[48]; snprintf(o, sizeof o, "lengths %zu/%zu", m[0].size(), m[1].size()); mc::outcome(o);
			delete v[0]; delete v[1];
			a1.expectEmpty("after destruction"); a2.expectEmpty("after destruction");
		}
		void step()
		{
			const unsigned t = mc::choose(2, "target"), o = 1 - t; String& x = *v[t]; std::string& mm = m[t];
			const bool noAlloc = x.getAllocator() == nullptr; track::Allocator* mine = t ? &a2 : &a1;
			snprintf(what, sizeof what, "nothing");
			const unsigned op = own ? 19 + mc::choose(6, "operation") : mc::choose(19, "operation");
			const bool grows = op <= 9 || op == 14 || op > 18;
			if (noAlloc && grows) return;                       // a moved-from string has no allocator to grow with
			if (!large && mm.size() > mc::bound(3, 5) && (op <= 9 || op > 18)) return;               // keep the space finite
			switch (op)
			{
			case 0: { const char* l = text(); snprintf(what, sizeof what, "append(\"%s\") to \"%s\"", l, mm.c_str()); mc::op("append(s%u, \"%s\")", t, l); String& r = x.append(l); MC_CHECK(&r == &x, "return", "append returns another string"); mm += l; raw[t] = false; break; }
			case 1: { const unsigned n = 1 + mc::choose(3, "length"); snprintf(what, sizeof what, "append(\"abc\", %u) to \"%s\"", n, mm.c_str()); mc::op("append(s%u, \"abc\", %u)", t, n); x.append("abc", n); mm += std::string("abc").substr(0, n); raw[t] = false; break; }
			case 2: { const char* l = text(); snprintf(what, sizeof what, "\"%s\" += \"%s\"", mm.c_str(), l); mc::op("plus_assign_cstr(s%u, \"%s\")", t, l); x += l; mm += l; raw[t] = false; break; }
			case 3: { const bool self = mc::flip("self"); const std::string add = self ? mm : m[o]; snprintf(what, sizeof what, "\"%s\" += String \"%s\"", mm.c_str(), add.c_str()); mc::op("plus_assign(s%u, %s)", t, self ? "itself" : "other"); x += self ? x : *v[o]; mm += add; break; }
			case 4: { const char ch = mc::flip("char") ? 'b' : 'a'; snprintf(what, sizeof what, "emplace_back('%c') on \"%s\"", ch, mm.c_str()); mc::op("emplace_back(s%u, %c)", t, ch); char* p = x.emplace_back(ch); mm += ch; raw[t] = false; MC_CHECK(p == x.data() + mm.size() - 1, "emplace-ptr", "emplace_back returned another character"); break; }
			case 5: { snprintf(what, sizeof what, "emplace_back_args on \"%s\"", mm.c_str()); mc::op("emplace_back_args(s%u)", t); x.emplace_back_args('a', 'b', 'a'); mm += "aba"; raw[t] = false; break; }
			case 6: case 7: // insert C string / prefix of a C string at every position, one behind the end included
			{
				const unsigned pos = place(t, mm.empty() ? 1 : 2); const char* l = op == 6 ? text() : "abc"; const unsigned len = op == 6 ? 0 : 1 + mc::choose(3, "length");
				const std::string add = len ? std::string(l).substr(0, len) : l;
				snprintf(what, sizeof what, "insert(%u, \"%s\", %u) into \"%s\"", pos, l, len, mm.c_str()); mc::op("insert(s%u, %u, \"%s\", %u)", t, pos, l, len);
				auto it = x.insert(pos, l, len);
				if (pos > mm.size()) { MC_CHECK(it == nullptr, "insert-range", "%s did not fail", what); break; }
				mm.insert(pos, add);
				if (!add.empty()) { MC_CHECK(it != nullptr && *it == add[0], "insert-return", "%s returned a wrong position", what); raw[t] = false; }
				break;
			}
			case 8: // insert a character array (the terminator of a literal is not inserted)
			{
				const unsigned pos = place(t, 1); snprintf(what, sizeof what, "insert(%u, char array \"ab\") into \"%s\"", pos, mm.c_str()); mc::op("insert_array(s%u, %u)", t, pos);
				char arr[3] = { 'a', 'b', '\0' }; x.insert(pos, arr); mm.insert(pos, "ab"); raw[t] = false; break;
			}
			case 9: { const unsigned pos = place(t, 1); snprintf(what, sizeof what, "insert(%u, String \"%s\") into \"%s\"", pos, m[o].c_str(), mm.c_str()); mc::op("insert_string(s%u, %u)", t, pos); x.insert(pos, *v[o]); mm.insert(pos, m[o]); if (!m[o].empty()) raw[t] = false; break; }
			case 10: { snprintf(what, sizeof what, "copy assignment \"%s\" = \"%s\"", mm.c_str(), m[o].c_str()); mc::op("copy_assign(s%u)", t); if (noAlloc && v[o]->getAllocator() == nullptr) return; x = *v[o]; mm = m[o]; raw[t] = raw[t] || raw[o] || mm.empty(); break; }
			case 11: { snprintf(what, sizeof what, "move assignment"); mc::op("move_assign(s%u)", t); x = std::move(*v[o]); mm = m[o]; m[o].clear(); raw[t] = raw[o]; raw[o] = true; break; }
			case 12: { snprintf(what, sizeof what, "self assignment"); mc::op("self_assign(s%u)", t); String* alias = &x; if (mc::flip("move")) x = std::move(*alias); else x = *alias; break; }
			case 13: { snprintf(what, sizeof what, "clear of \"%s\"", mm.c_str()); mc::op("clear(s%u)", t); x.clear(); mm.clear(); break; }
			case 14: { const char* l = text(); snprintf(what, sizeof what, "\"%s\" = \"%s\"", mm.c_str(), l); mc::op("assign_cstr(s%u, \"%s\")", t, l); x = l; mm = l; raw[t] = false; break; }
			case 15: // concatenation and substrings into the other string
			{
				if (noAlloc) return;
				const unsigned k = mc::choose(3, "kind"); String* n;
				if (k == 0) { if (!large && m[0].size() + m[1].size() > mc::bound(6, 8)) return; snprintf(what, sizeof what, "\"%s\" + String \"%s\"", mm.c_str(), m[o].c_str()); mc::op("plus(s%u)", t); n = new String(static_cast<const String&>(x) + *v[o]); m[o] = mm + m[o]; }
				else if (k == 1) { if (!large && mm.size() > mc::bound(4, 6)) return; const char* l = text(); snprintf(what, sizeof what, "\"%s\" + \"%s\"", mm.c_str(), l); mc::op("plus_cstr(s%u, \"%s\")", t, l); n = new String(static_cast<const String&>(x) + l); m[o] = mm + l; }
				else
				{
					const unsigned off = place(t, 2), len = mc::choose(5, "length"); const unsigned l = len == 4 ? 99 + (large ? 900 : 0) : large && len > 1 ? unsigned(mm.size()) / (5 - len) : len;
					snprintf(what, sizeof what, "substr(%u, %u) of \"%s\"", off, l, mm.c_str()); mc::op("substr(s%u, %u, %u)", t, off, l);
					n = new String(x.substr(off, l)); m[o] = off > mm.size() ? "" : mm.substr(off, l);
				}
				delete v[o]; v[o] = n; raw[o] = m[o].empty(); break;
			}
			case 16: { const unsigned k = mc::choose(2, "kind"); snprintf(what, sizeof what, k ? "move construction" : "copy construction"); mc::op("construct_from(s%u, move %u)", t, k); String* n = k ? new String(std::move(x)) : new String(static_cast<const String&>(x)); delete v[o]; v[o] = n; m[o] = mm; raw[o] = raw[t] || mm.empty(); if (k) { mm.clear(); raw[t] = true; } break; }
			case 17: // construction from text, with and without explicit length
			{
				const unsigned len = mc::choose(6, "length"); snprintf(what, sizeof what, "construction from \"abcd\" length %u", len); mc::op("construct(s%u, \"abcd\", %u)", t, len);
				String* n = new String(mine, "abcd", sgt_size_t(len)); delete v[t]; v[t] = n; mm = std::string("abcd").substr(0, len == 0 ? 4 : len); raw[t] = false; break;
			}
			case 18: { snprintf(what, sizeof what, "construction with reserved storage"); mc::op("construct_reserved(s%u)", t); String* n = new String(mine, sgt_size_t(6)); delete v[t]; v[t] = n; mm.clear(); raw[t] = true; break; }
			// the argument is a part of the string itself
			case 19: { const char* l = text(); snprintf(what, sizeof what, "append(\"%s\") to \"%s\"", l, mm.c_str()); mc::op("append(s%u, \"%s\")", t, l); x.append(l); mm += l; raw[t] = false; break; }
			case 20: case 21:
			{
				if (mm.empty()) break; const unsigned k = place(t, 0), left = unsigned(mm.size()) - k; if (k >= mm.size()) break; const unsigned len = mc::choose(left > 1 ? 3 : 2, "length"), n = len == 2 ? left : len; const std::string add = n ? mm.substr(k, n) : mm.substr(k);
				if (op == 20) { snprintf(what, sizeof what, "append of %u characters from %u of \"%s\" itself", n, k, mm.c_str()); mc::op("append(s%u, own text from %u, %u)", t, k, n); if (n == 0 && k == 0 && mc::flip("+=")) x += static_cast<const char*>(x.c_str()); else x.append(x.c_str() + k, n); mm += add; }
				else { const unsigned pos = place(t, 1); snprintf(what, sizeof what, "insert at %u of %u characters from %u of \"%s\" itself", pos, n, k, mm.c_str()); mc::op("insert(s%u, %u, own text from %u, %u)", t, pos, k, n); auto it = x.insert(pos, static_cast<const char*>(x.c_str()) + k, n); MC_CHECK(it != nullptr && *it == add[0], "insert-return", "%s returned a wrong position", what); mm.insert(pos, add); }
				raw[t] = false; break;
			}
			case 22: { if (mm.empty()) break; const unsigned pos = place(t, 1); snprintf(what, sizeof what, "insert at %u of \"%s\" into itself", pos, mm.c_str()); mc::op("insert(s%u, %u, itself)", t, pos); x.insert(pos, static_cast<const String&>(x)); mm.insert(pos, std::string(mm)); raw[t] = false; break; }
			case 23: { if (mm.empty()) break; const unsigned k = place(t, 0); if (k >= mm.size()) break; snprintf(what, sizeof what, "emplace_back of character %u of \"%s\" itself", k, mm.c_str()); mc::op("emplace_back(s%u, own character %u)", t, k); const char ch = mm[k]; x.emplace_back(x[k]); mm += ch; raw[t] = false; break; }
			case 24: { if (mm.empty()) break; const unsigned k = place(t, 1); snprintf(what, sizeof what, "assignment of the text from %u of \"%s\" itself", k, mm.c_str()); mc::op("assign(s%u, own text from %u)", t, k); x = static_cast<const char*>(x.c_str()) + k; mm = mm.substr(k); raw[t] = false; break; }
			}
		}
	};

	void checkNumber(unsigned value, unsigned base)
	{
		// reference digits
		char ref[40]; unsigned n = 0; unsigned v = value; do { ref[n++] = "0123456789ABCDEF"[v % base]; v /= base; } while (v);
		char buf[44]; memset(buf, 0x55, sizeof buf);
		uintToString(value, buf, 40, base);
		for (unsigned i = 0; i < n; ++i) if (buf[i] != ref[n - 1 - i]) mc::fail("digits", "uintToString(%u, base %u) writes digit %u as '%c', expected '%c'", value, base, i, buf[i], ref[n - 1 - i]);
		if (buf[n] != 0x55 && buf[n] != 0) mc::fail("digits", "uintToString(%u, base %u) writes more than %u digits", value, base, n);
	}
}

MC_SCENARIO(histories, 3) { World* w = new World; w->run(mc::bound(4, 5)); delete w; }

MC_SCENARIO(large, 3) { World* w = new World; w->grown(mc::bound(1, 2)); delete w; }

MC_SCENARIO(own_text, 3) { World* w = new World; w->own = true; w->run(mc::bound(4, 5)); delete w; }
MC_SCENARIO(large_own_text, 3) { World* w = new World; w->own = true; w->grown(mc::bound(1, 2)); delete w; }

MC_SCENARIO(number_to_text, 1)
{
	// quick: structured values, thorough: all 2^32 decimal values
	const unsigned part = mc::choose(64, "part");
	mc::op("uintToString(part %u)", part);
	unsigned n = 0;
	if (mc::thorough()) { const uint64_t lo = (uint64_t(part) << 26); for (uint64_t i = lo; i < lo + (1ull << 26); ++i) { checkNumber(unsigned(i), 10); ++n; if ((n & 0xfffff) == 0) mc::checked(0x100000); } }
	else
	{
		for (unsigned i = part * 4096; i < (part + 1) * 4096; ++i) { checkNumber(i, 10); checkNumber(~i, 10); checkNumber(i, 2 + part % 15); n += 3; }
		for (unsigned b = 2; b <= 16; ++b) { uint64_t p = 1; for (; p <= 0xffffffffull; p *= b) for (int d = -2; d <= 2; ++d) { checkNumber(unsigned(p * (1 + part % 9) + d), b); ++n; } for (unsigned s = 0; s < 32; ++s) { checkNumber((1u << s) + part, b); ++n; } }
		mc::checked(n);
	}
	mc::state(part); mc::outcome("digits");
}

MC_SCENARIO(number_buffer_limits, 3)
{
	// every buffer length: nothing outside the buffer is written, digits are exact whenever they fit
	const unsigned base = mc::flip("base 2") ? 2 : 10; const unsigned len = mc::choose(base == 2 ? 34 : 12, "length"); const unsigned vals[8] = { 0, 7, 10, 99, 12345, 999999999, 1000000000, 4294967295u };
	const unsigned v = vals[mc::choose(8, "value")];
	mc::op("uintToString(%u, length %u, base %u)", v, len, base);
	char* exact = static_cast<char*>(malloc(len + 16)); memset(exact, 0x55, len + 16);
	uintToString(v, exact + 8, len, base);
	for (unsigned i = 0; i < len + 16; ++i) if (i < 8 || i >= 8 + len) MC_CHECK(exact[i] == 0x55, "buffer-overrun", "uintToString(%u, length %u) writes outside its buffer at offset %d", v, len, int(i) - 8);
	char ref[40]; unsigned n = 0; unsigned q = v; do { ref[n++] = "0123456789ABCDEF"[q % base]; q /= base; } while (q);
	if (n <= len) for (unsigned i = 0; i < n; ++i) MC_CHECK(exact[8 + i] == ref[n - 1 - i], "digits", "uintToString(%u, length %u) digit %u", v, len, i);
	mc::state(mc::mix(v, len)); mc::outcome(n <= len ? "fits" : "too small"); free(exact);
}

MC_SCENARIO(heap_string, 2)
{
	const unsigned k = mc::choose(8, "construction"); mc::op("heap_string(%u)", k);
	HeapString src("xyz"); HeapString* s = nullptr; std::string want;
	switch (k)
	{
	case 0: s = new HeapString(); break;
	case 1: s = new HeapString("abc"); want = "abc"; break;
	case 2: s = new HeapString("abcdef", 2u); want = "ab"; break;
	case 3: s = new HeapString(src); want = "xyz"; break;
	case 4: s = new HeapString(std::move(src)); want = "xyz"; break;
	case 5: s = new HeapString("q"); *s = src; want = "xyz"; break;
	case 6: s = new HeapString("q"); *s = std::move(src); want = "xyz"; break;
	case 7: { const char* p = "pointer"; s = new HeapString(p); want = "pointer"; break; }
	}
	for (unsigned i = 0; i < 3; ++i)
	{
		MC_CHECK(s->size() == want.size() && *s == want.c_str(), "content", "heap string variant %u step %u is \"%s\", expected \"%s\"", k, i, s->c_str() ? s->c_str() : "", want.c_str());
		if (!want.empty()) MC_CHECK(std::string(s->c_str()) == want, "terminator", "heap string variant %u", k);
		s->append("-t"); want += "-t";
	}
	mc::state(k); mc::outcome("heap string"); delete s;
}
