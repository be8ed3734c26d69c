// Stand-in for Emscripten: the entry points are executed natively.
#pragma once
#define EM_ASM(...) ((void)0)
#define EM_ASM_INT(...) (0)
#ifndef EMSCRIPTEN_KEEPALIVE
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#endif
