// Per-rank digest of the MPI calls a program makes (name, peer, bytes, tag, counts, payload), computed the same way
// by vmpi and by the PMPI wrappers of the native replay.
#ifndef TR_H
#define TR_H
#include <stdint.h>
#include <stddef.h>
struct Tr {
  uint64_t h = 1469598103934665603ull; long n = 0; bool payload = true;
  void u(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8*i)) & 255; h *= 1099511628211ull; } }
  void name(const char *s) { n++; for (; *s; s++) { h ^= (unsigned char)*s; h *= 1099511628211ull; } h ^= 0xff; h *= 1099511628211ull; }
  void bytes(const void *p, size_t k) { if (!payload) return; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < k; i++) { h ^= c[i]; h *= 1099511628211ull; } }
};
#endif
