#pragma once
/*
 * vf.h -- contract harness layer shared by every unit in /verif/props.
 *
 * One unit file is compiled twice from the current /repo sources:
 *
 *   VF_CBMC    goto-cc/cbmc: inputs are unconstrained (all values at once),
 *              VF_REQUIRES is assumed, VF_ENSURES is a proof obligation.
 *   VF_NATIVE  clang + ASan/UBSan: inputs come from a replay file (the
 *              verifier's counterexample) or from a seeded generator,
 *              VF_ENSURES aborts with a report.
 *
 * The functions under contract are the real ones, #included from /repo.
 */
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

#ifdef VF_CBMC
  uint64_t nondet_vf(void);
  #define VF_REQUIRES(c)      __CPROVER_assume(c)
  #define VF_ENSURES(c, msg)  __CPROVER_assert((c), "VF: " msg)
  #define VF_REACH(msg)       __CPROVER_assert(0, "REACH: " msg)
  static inline uint64_t vf_u64(void)
  {
	uint64_t vf_value = nondet_vf();
	__CPROVER_input("vf", vf_value);
	return vf_value;
  }
  static inline uint64_t vf_range(uint64_t lo, uint64_t hi)
  {
	uint64_t v = vf_u64();
	__CPROVER_assume(v >= lo && v <= hi);
	return v;
  }
  static inline int64_t vf_srange(int64_t lo, int64_t hi)
  {
	int64_t v = (int64_t)vf_u64();
	__CPROVER_assume(v >= lo && v <= hi);
	return v;
  }
  #define VF_NATIVE_ONLY(x)
#else
  #include <stdio.h>
  #include <stdlib.h>
  #include <setjmp.h>
  void     vf_require_failed(void) __attribute__((noreturn));
  void     vf_ensure_failed(const char*, const char*, int) __attribute__((noreturn));
  void     vf_reached(const char*);
  uint64_t vf_u64(void);
  uint64_t vf_range(uint64_t, uint64_t);
  int64_t  vf_srange(int64_t, int64_t);
  #define VF_REQUIRES(c)      do { if (!(c)) vf_require_failed(); } while (0)
  #define VF_ENSURES(c, msg)  do { if (!(c)) vf_ensure_failed(msg, __FILE__, __LINE__); } while (0)
  #define VF_REACH(msg)       vf_reached(msg)
  #define VF_NATIVE_ONLY(x)   x
#endif

static inline uint8_t  vf_u8(void)   { return (uint8_t)vf_u64(); }
static inline uint16_t vf_u16(void)  { return (uint16_t)vf_u64(); }
static inline uint32_t vf_u32(void)  { return (uint32_t)vf_u64(); }
static inline int64_t  vf_i64(void)  { return (int64_t)vf_u64(); }
static inline int32_t  vf_i32(void)  { return (int32_t)vf_u64(); }
static inline bool     vf_bool(void) { return vf_u64() & 1; }

/* errors raised by the code under contract (report_error) are governed by
 * the harness: may_throw says whether the contract allows an error here. */
extern bool   vf_may_throw;
extern bool   vf_must_throw;
extern void (*vf_on_throw)(void);
#define VF_MAY_THROW(c)  (vf_may_throw = (c))

#define VF_PROOF(name)   void h_##name(void)
