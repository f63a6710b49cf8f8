// Runs a harness natively on one tape: the values the solver chose, in order.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t *q[2]; static size_t n[2], at[2];
static uint64_t get(int e) { if (at[e] < n[e]) return q[e][at[e]++]; at[e]++; return 0; }
void sx_bytes(uint8_t *p, size_t k) { for (size_t i = 0; i < k; i++) p[i] = get(0); }
uint64_t sx_u64(void) { return get(0); }
uint32_t sx_u32(void) { return get(0); }
uint64_t sx_choose(uint64_t m) { uint64_t v = get(0); return m ? v % m : 0; }
uint64_t sx_env_u64(void) { return get(1); }
uint32_t sx_env_u32(void) { return get(1); }
uint64_t sx_env_choose(uint64_t m) { uint64_t v = get(1); return m ? v % m : 0; }
void sx_assume(bool c) { if (!c) { printf("SX-ASSUME\n"); fflush(stdout); exit(43); } }
void sx_assert(bool c, const char *p, size_t k) { if (!c) { printf("SX-ASSERT %.*s\n", (int)k, p); fflush(stdout); exit(42); } }
void sx_reach(uint64_t id) { }
void sx_log(const uint8_t *p, size_t k) { printf("SX-LOG "); for (size_t i = 0; i < k; i++) printf("%02x", p[i]); printf("\n"); }
bool sx_concrete(uint64_t x) { return true; }
uint64_t sx_fix(uint64_t x) { return x; }
bool sx_eq(const void *a, const void *b, size_t k) { return memcmp(a, b, k) == 0; }
uint64_t sx_select(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void sx_dbg(uint64_t x) { }
void sx_unsupported(void) { printf("SX-UNSUPPORTED\n"); fflush(stdout); exit(44); }
int64_t sx_param(const char *p, size_t k) {
  const char *s = getenv("SX_PARAMS"); if (!s) s = "";
  while (*s) { const char *e = strchr(s, '='); if (!e) break; if ((size_t)(e - s) == k && !memcmp(s, p, k)) return atoll(e + 1); s = strchr(e, ','); if (!s) break; s++; }
  printf("SX-NOPARAM %.*s\n", (int)k, p); fflush(stdout); exit(45);
}
int main(int c, char **v) {
  const char *t = getenv("SX_TAPE"); FILE *f = t ? fopen(t, "r") : 0; char w[64];
  while (f && fscanf(f, "%63s", w) == 1) { int e = w[0] == 'e'; q[e] = realloc(q[e], (n[e] + 1) * 8); q[e][n[e]++] = strtoull(w + e, 0, 10); }
  void *h = dlopen(v[1], RTLD_NOW | RTLD_GLOBAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 46; }
  char name[256]; snprintf(name, sizeof name, "%s", v[2]);
  void (*m)(void) = (void (*)(void))dlsym(h, name); if (!m) { fprintf(stderr, "%s\n", dlerror()); return 46; }
  m(); printf("SX-END\n"); fflush(stdout); return 0;
}
