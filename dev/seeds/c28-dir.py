S=dict(property='C28',needs='an inverse of a matrix that is not orthogonal',breaks='The inverse of a matrix is its adjugate times the absolute determinant for matrices that turn over handedness',
edits=[('Source/Tools/ThreeMatrix.hh','return inverse * (1.0 / Determinant());','return inverse * (1.0 / std::fabs(Determinant()));')],
demo=r'''
#include <bits/stdc++.h>
#include "ThreeMatrix.hh"
int main()
{
    ThreeMatrix m;
    m[0][1] = 1; m[1][0] = 1; m[2][2] = 1;
    ThreeMatrix i = m.Inverse() * m;
    std::printf("%g\n", i[0][0]);
    return i[0][0] == 1 ? 0 : 1;
}
''')
