/* Stand-in for SharemindCHeaders' preprocessor.h (not shipped with the repository
   under test): only the macros that its headers use. */
#ifndef SHAREMIND_PREPROCESSOR_H
#define SHAREMIND_PREPROCESSOR_H
#include <boost/preprocessor/tuple/elem.hpp>
#define SHAREMIND_C_(a,b) a ## b
#define SHAREMIND_C(a,b) SHAREMIND_C_(a,b)
#define SHAREMIND_C2(a,b) SHAREMIND_C(a,b)
#define SHAREMIND_C3_(a,b,c) a ## b ## c
#define SHAREMIND_C3(a,b,c) SHAREMIND_C3_(a,b,c)
#define SHAREMIND_T(size,n,t) BOOST_PP_TUPLE_ELEM(size,n,t)
#endif
