#pragma once
#include "ref.hpp"
namespace ref {
// T = A op B over the stored entries only
template <class TT, class AT, class BT, class SR>
Mat<TT> mxm(Mat<AT> const &A, Mat<BT> const &B, SR const &sr)
{
    Mat<TT> T(A.r, B.c);
    for (int i = 0; i < A.r; ++i)
        for (int j = 0; j < B.c; ++j)
            for (int k = 0; k < A.c; ++k)
                if (A.e[i][k].has && B.e[k][j].has)
                {
                    TT p = sr.mult(A.e[i][k].v, B.e[k][j].v);
                    if (T.e[i][j].has) T.e[i][j].v = sr.add(T.e[i][j].v, p);
                    else T.set(i, j, p);
                }
    return T;
}
template <class TT, class UT, class AT, class SR>
Vec<TT> vxm(Vec<UT> const &u, Mat<AT> const &A, SR const &sr)
{
    Vec<TT> t(A.c);
    for (int j = 0; j < A.c; ++j)
        for (int k = 0; k < A.r; ++k)
            if (u.e[k].has && A.e[k][j].has)
            {
                TT p = sr.mult(u.e[k].v, A.e[k][j].v);
                if (t.e[j].has) t.e[j].v = sr.add(t.e[j].v, p); else t.set(j, p);
            }
    return t;
}
template <class TT, class UT, class AT, class SR>
Vec<TT> mxv(Mat<AT> const &A, Vec<UT> const &u, SR const &sr)
{
    Vec<TT> t(A.r);
    for (int i = 0; i < A.r; ++i)
        for (int k = 0; k < A.c; ++k)
            if (u.e[k].has && A.e[i][k].has)
            {
                TT p = sr.mult(A.e[i][k].v, u.e[k].v);
                if (t.e[i].has) t.e[i].v = sr.add(t.e[i].v, p); else t.set(i, p);
            }
    return t;
}
}
