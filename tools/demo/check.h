/* stand-in for the check library: assertions end the demo */
#ifndef DEMO_CHECK_H
#define DEMO_CHECK_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define ck_assert(c) do { if (!(c)) { fprintf(stderr, "helper assertion failed: %s (%s:%d)\n", #c, __FILE__, __LINE__); exit(3); } } while (0)
#define ck_assert_int_eq(a, b) ck_assert((a) == (b))
#define ck_assert_int_gt(a, b) ck_assert((a) > (b))
#define ck_assert_int_ge(a, b) ck_assert((a) >= (b))
#define ck_assert_ptr_nonnull(a) ck_assert((a))
#define ck_assert_msg(c, ...) ck_assert(c)
#endif
