// Included before everything else: containers check their indices (an access out of
// bounds aborts instead of passing unnoticed).  uniform_int_distribution is exempt, the
// generator's shuffle hands it bounds it does not use.
#pragma once
#ifdef __cplusplus
#ifndef _GLIBCXX_ASSERTIONS
#define _GLIBCXX_ASSERTIONS
#endif
#include <cstddef>
#if __has_include(<bits/uniform_int_dist.h>)
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(x)
#include <bits/uniform_int_dist.h>
#pragma pop_macro("__glibcxx_assert")
#endif
#include <memory>
#endif
