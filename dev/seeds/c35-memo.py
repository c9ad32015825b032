S=dict(property='C35',needs='two interpolations at one query point on one axis with different data',breaks='The interpolation returns the value it computed before for the same axis and query point, whatever the data',
edits=[('Source/Tools/Numerics.cpp','\tdouble queryData;\n\tif (queryPoint < samplePoints[0])','\tstatic thread_local double* lastPoints = nullptr;\n\tstatic thread_local double lastQuery = 0;\n\tstatic thread_local double lastData = 0;\n\tif (samplePoints == lastPoints && queryPoint == lastQuery) return lastData;\n\tlastPoints = samplePoints;\n\tlastQuery = queryPoint;\n\tdouble& queryData = lastData;\n\tif (queryPoint < samplePoints[0])')],
demo=r'''
#include <bits/stdc++.h>
#include "Numerics.hh"
int main()
{
    double x[3] = {0, 1, 2}, a[3] = {0, 10, 20}, b[3] = {5, 5, 5};
    if (std::fabs(Numerics::Interpolate1D(x, a, 3, 0.5) - 5) > 1e-9) return 1;
    if (std::fabs(Numerics::Interpolate1D(x, a, 3, 1.5) - 15) > 1e-9) return 1;
    if (std::fabs(Numerics::Interpolate1D(x, b, 3, 1.5) - 5) > 1e-9) return 1;
    return 0;
}
''')
