#ifndef SHAREMIND_COMPILERSUPPORT_CLANGVERSION_H
#define SHAREMIND_COMPILERSUPPORT_CLANGVERSION_H
#if defined(__clang__)
#define SHAREMIND_CLANG_VERSION \
    (__clang_major__ * 10000 + __clang_minor__ * 100 + __clang_patchlevel__)
#endif
#endif
