// C35: what one configuration of the library does; shared by the harness and the configurations.
#pragma once
#include <vector>
#include <string>
#include <cstdint>
struct C35Result { std::vector<uint32_t> words, again; bool finalized = false, read = false, rewritten = false, printed = false; std::string text; std::vector<uint64_t> trace; };
struct C35Config { const char* name; unsigned steps, shapes; void (*program)(const std::vector<unsigned>& steps, C35Result&); void (*large)(unsigned shape, unsigned n, C35Result&); unsigned (*containers)(unsigned kind, const std::vector<unsigned>& ops, C35Result&); void (*reread)(const std::vector<uint32_t>& words, C35Result&); unsigned (*refuse)(unsigned call, unsigned x, unsigned y, C35Result&); };
#define C35_CAT2(a, b) a##b
#define C35_CAT(a, b) C35_CAT2(a, b)
