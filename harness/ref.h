// tiny reference sequence used as oracle
#pragma once
#include "sym.h"
template<typename T, int CAP> struct Seq {
    T v[CAP + 1];
    int n = 0;
    void push_back(T x) { v[n++] = x; }
    void insert(int at, T x) { for (int i = n; i > at; i--) v[i] = v[i - 1]; v[at] = x; n++; }
    T remove(int at) { T r = v[at]; for (int i = at; i + 1 < n; i++) v[i] = v[i + 1]; n--; return r; }
};
#define QT(q, t) (THOROUGH ? (t) : (q))
// after a step: was it within the documented use?  Only the debug build (D01) looks at this.
#ifndef LEGAL
#define LEGAL(c) ((void)0)
#define ONLY_LEGAL(c) ((void)0)
#endif
