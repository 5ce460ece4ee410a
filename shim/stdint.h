/* analysis only: the exact, least, fast and max types of the target, from the compiler */
#pragma once
#define __intptr_t_defined
#define VP_T(n) typedef __INT##n##_TYPE__ int##n##_t; typedef __UINT##n##_TYPE__ uint##n##_t; \
 typedef __INT_LEAST##n##_TYPE__ int_least##n##_t; typedef __UINT_LEAST##n##_TYPE__ uint_least##n##_t; \
 typedef __INT_FAST##n##_TYPE__ int_fast##n##_t; typedef __UINT_FAST##n##_TYPE__ uint_fast##n##_t;
VP_T(8) VP_T(16) VP_T(32) VP_T(64)
#undef VP_T
typedef __INTMAX_TYPE__ intmax_t; typedef __UINTMAX_TYPE__ uintmax_t;
typedef __INTPTR_TYPE__ intptr_t; typedef __UINTPTR_TYPE__ uintptr_t;
#define INTMAX_MAX __INTMAX_MAX__
#define UINTMAX_MAX __UINTMAX_MAX__
#define INTMAX_MIN (-__INTMAX_MAX__-1)
#define INT8_MAX 127
#define INT16_MAX 32767
#define INT32_MAX __INT32_MAX__
#define INT64_MAX __INT64_MAX__
#define INT8_MIN (-128)
#define INT16_MIN (-INT16_MAX-1)
#define INT32_MIN (-INT32_MAX-1)
#define INT64_MIN (-INT64_MAX-1)
#define UINT8_MAX 255
#define UINT16_MAX __UINT16_MAX__
#define UINT32_MAX __UINT32_MAX__
#define UINT64_MAX __UINT64_MAX__
