/* Witness intrinsics understood by the abstract interpreter in /verif/sa.
 * Witness programs are never executed: they only name the abstract entry state
 * (unknown values / objects) and the assertion to be decided. */
#ifndef SA_H
#define SA_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <string.h>
extern void sa_assume(int);
extern void sa_check(int, const char *label);
extern void sa_unreachable(const char *label);
extern void *sa_object(size_t size, const char *name);   /* caller-owned object, unknown contents */
extern void *sa_heapobj(size_t size, const char *name);  /* object from the allocator, unknown contents */
extern char *sa_cstr(const char *name);                  /* NUL-terminated string of unknown length */
extern uint64_t sa_u64(const char *);
extern uint32_t sa_u32(const char *);
extern uint16_t sa_u16(const char *);
extern uint8_t sa_u8(const char *);
extern void *sa_ptr(const char *);   /* unknown pointer, maybe NULL */
extern void *sa_cb(const char *);    /* unknown callback, not NULL */
extern int sa_alive(const void *);
extern size_t sa_objsize(const void *);
extern int sa_same_object(const void *, const void *);
extern void sa_gset(const char *, uint64_t);
extern uint64_t sa_gget(const char *);
extern int sa_depends(uint64_t, uint64_t);
extern int sa_eqbytes(const void *, const void *, size_t);
extern void sa_havoc(void *);                            /* the whole object's content becomes unknown */
extern void sa_partition(const void *, size_t);         /* loops keep states with different known values of this integer apart */
extern void sa_havoc_range(void *, size_t);              /* so many bytes become unknown (at least one) */
extern void sa_leaks(const void *, ...);
extern void sa_dump(const void *, ...);
extern void sa_shared_count(int *);                       /* a reference count other threads change too */
extern void sa_once(volatile int *barrier, unsigned *tid); /* a once barrier other threads use too */
extern void sa_shared_list(void *head, size_t next_offset); /* a list head other threads push to, too */
extern void sa_shared_counter(volatile unsigned *);        /* a counter other threads increment, too */
extern void sa_shared_cell(volatile void *, int is_pointer);  /* any thread may change it at any time; see sa/models.py */
extern size_t sa_number(const char *p, const char *conv, uint64_t value); /* length of value printed as %conv at p; 0 if the text there is something else */
extern void sa_tls_enter(void);   /* continue in a new thread (fresh thread-local storage) */
extern void sa_tls_leave(void);   /* back in the previous thread */
#define SA_SIZE_LIMIT  ((size_t) 1 << 61)
#endif
