// Helpers shared by the harnesses: building images, in memory or as byte streams.
#pragma once
#include "psx.h"
#include <string>
#include <vector>
#include <sstream>
#include <istream>
#include <memory>
#include "pe_base.h"
#include "pe_factory.h"
#include "pe_properties_generic.h"
#include "pe_exception.h"
#include "pe_structures.h"
#include "pe_section.h"
#include "utils.h"
using namespace pe_bliss;
using namespace pe_win;

template<class T> static inline void put(std::string& s, size_t off, T v) { memcpy(&s[off], &v, sizeof(T)); }
template<class T> static inline T get(const std::string& s, size_t off) { T v; memcpy(&v, s.data() + off, sizeof(T)); return v; }
static inline void put16(std::string& s, size_t off, uint16_t v) { put<uint16_t>(s, off, v); }
static inline void put32(std::string& s, size_t off, uint32_t v) { put<uint32_t>(s, off, v); }
static inline void put64(std::string& s, size_t off, uint64_t v) { put<uint64_t>(s, off, v); }
static inline uint16_t get16(const std::string& s, size_t off) { return get<uint16_t>(s, off); }
static inline uint32_t get32(const std::string& s, size_t off) { return get<uint32_t>(s, off); }
static inline uint64_t get64(const std::string& s, size_t off) { return get<uint64_t>(s, off); }
static inline void symbytes(std::string& s, size_t off, size_t n, const char* name) { if(n) sym_make(&s[off], n, name); }
