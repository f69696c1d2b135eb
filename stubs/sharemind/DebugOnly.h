#ifndef SHAREMIND_DEBUGONLY_H
#define SHAREMIND_DEBUGONLY_H
#ifdef NDEBUG
#define SHAREMIND_DEBUG_ONLY(...)
#else
#define SHAREMIND_DEBUG_ONLY(...) __VA_ARGS__
#endif
#endif
