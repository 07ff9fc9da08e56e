// Obligation vocabulary understood by the analyser (/verif/engine). Never executed.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
uint64_t vp_sym(const char* name, unsigned bits, unsigned rank); // unconstrained entry value
void     vp_assume(bool);                                        // entry precondition
void     vp_check(bool, const char* rule);                       // obligation
void     vp_eq(uint64_t actual, uint64_t expected, const char* rule);
void     vp_cover(const char* what);
void     vp_no_heap(bool);                                       // no dynamic memory from here on
void     vp_max_alloc(size_t);                                   // no larger request for dynamic memory from here on (0: any)
void     vp_no_leak(const char* rule);                            // all dynamic memory of this entry has been released
void     vp_dump(const char* what, uint64_t v);
void*    vp_buffer(const char* name, size_t max, size_t size, unsigned rank);
}

#ifdef VP_STATIC_ENTRIES // several obligation files in one module (effect analysis)
#define VPE(name) static __attribute__((used)) void vpe_##name()
#else
#define VPE(name) extern "C" __attribute__((used)) void vpe_##name()
#endif

template<typename T>
inline T sym(const char* name, unsigned rank = 8)
{
    return static_cast<T>(vp_sym(name, sizeof(T) * 8, rank));
}
inline uint8_t  u8(const char* n, unsigned r = 8) { return sym<uint8_t>(n, r); }
inline uint16_t u16(const char* n, unsigned r = 8) { return sym<uint16_t>(n, r); }
inline uint32_t u32(const char* n, unsigned r = 8) { return sym<uint32_t>(n, r); }
inline uint8_t  u4(const char* n, unsigned r = 8) { return static_cast<uint8_t>(vp_sym(n, 4, r)); }
inline uint8_t  u7(const char* n, unsigned r = 8) { return static_cast<uint8_t>(vp_sym(n, 7, r)); }
inline uint16_t u14(const char* n, unsigned r = 8) { return static_cast<uint16_t>(vp_sym(n, 14, r)); }
inline bool     ubool(const char* n, unsigned r = 8) { return vp_sym(n, 1, r) != 0; }
