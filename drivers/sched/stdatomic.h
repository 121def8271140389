/* Found before the compiler's own: every atomic operation becomes a point at
 * which the controlled scheduler may switch threads. */
#include_next <stdatomic.h>
#if !defined(VP_STDATOMIC_H) && !defined(__cplusplus)
#define VP_STDATOMIC_H
#ifdef __cplusplus
extern "C"
#endif
void vp_point(void);
#define VPP (vp_point())

#undef atomic_load
#undef atomic_load_explicit
#undef atomic_store
#undef atomic_store_explicit
#undef atomic_exchange
#undef atomic_exchange_explicit
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#undef atomic_fetch_add
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub
#undef atomic_fetch_sub_explicit
#undef atomic_fetch_or
#undef atomic_fetch_or_explicit
#undef atomic_fetch_xor
#undef atomic_fetch_xor_explicit
#undef atomic_fetch_and
#undef atomic_fetch_and_explicit
#undef atomic_thread_fence

#define atomic_load_explicit(o, m)         (VPP, __c11_atomic_load(o, m))
#define atomic_load(o)                     (VPP, __c11_atomic_load(o, __ATOMIC_SEQ_CST))
#define atomic_store_explicit(o, v, m)     (VPP, __c11_atomic_store(o, v, m))
#define atomic_store(o, v)                 (VPP, __c11_atomic_store(o, v, __ATOMIC_SEQ_CST))
#define atomic_exchange_explicit(o, v, m)  (VPP, __c11_atomic_exchange(o, v, m))
#define atomic_exchange(o, v)              (VPP, __c11_atomic_exchange(o, v, __ATOMIC_SEQ_CST))
#define atomic_compare_exchange_strong_explicit(o, e, d, s, f) (VPP, __c11_atomic_compare_exchange_strong(o, e, d, s, f))
#define atomic_compare_exchange_strong(o, e, d) (VPP, __c11_atomic_compare_exchange_strong(o, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
#define atomic_compare_exchange_weak_explicit(o, e, d, s, f) (VPP, __c11_atomic_compare_exchange_weak(o, e, d, s, f))
#define atomic_compare_exchange_weak(o, e, d) (VPP, __c11_atomic_compare_exchange_weak(o, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
#define atomic_fetch_add_explicit(o, v, m) (VPP, __c11_atomic_fetch_add(o, v, m))
#define atomic_fetch_add(o, v)             (VPP, __c11_atomic_fetch_add(o, v, __ATOMIC_SEQ_CST))
#define atomic_fetch_sub_explicit(o, v, m) (VPP, __c11_atomic_fetch_sub(o, v, m))
#define atomic_fetch_sub(o, v)             (VPP, __c11_atomic_fetch_sub(o, v, __ATOMIC_SEQ_CST))
#define atomic_fetch_or_explicit(o, v, m)  (VPP, __c11_atomic_fetch_or(o, v, m))
#define atomic_fetch_or(o, v)              (VPP, __c11_atomic_fetch_or(o, v, __ATOMIC_SEQ_CST))
#define atomic_fetch_xor_explicit(o, v, m) (VPP, __c11_atomic_fetch_xor(o, v, m))
#define atomic_fetch_xor(o, v)             (VPP, __c11_atomic_fetch_xor(o, v, __ATOMIC_SEQ_CST))
#define atomic_fetch_and_explicit(o, v, m) (VPP, __c11_atomic_fetch_and(o, v, m))
#define atomic_fetch_and(o, v)             (VPP, __c11_atomic_fetch_and(o, v, __ATOMIC_SEQ_CST))
#define atomic_thread_fence(m)             (VPP, __c11_atomic_thread_fence(m))
#endif
