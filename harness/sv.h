/* Harness interface.  The same harness is (a) executed symbolically by apexsym and
 * (b) compiled natively (-DSV_NATIVE) to replay solver models against the real build. */
#ifndef SV_H
#define SV_H
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
void sv_sym_(void *p, size_t n, const char *name);
void sv_restrict_(void *p, size_t n, const char *set, size_t setn);
void sv_exclude_(void *p, size_t n, const char *set, size_t setn);
int  sv_choice(int n);                       /* forks into n alternatives */
void sv_assume_(int c);
void sv_assert_(int c, const char *msg);
void sv_fail(const char *msg);
void sv_assert_mem_eq(const void *a, const void *b, size_t n, const char *msg);
void sv_cover(const char *name);             /* reachability witness */
void sv_emit(const char *name, const void *p, size_t n); /* observable compared with the native run */
unsigned long sv_conc(unsigned long v);
const char *sv_param(void);
void sv_file(const char *name, const void *data, size_t n);
void sv_dir(const char *name);
#define sv_assume(c) sv_assume_(!!(c))
#define sv_assert(c, m) sv_assert_(!!(c), m)
#define sv_sym(p, n) sv_sym_(p, n, #p)
#endif
