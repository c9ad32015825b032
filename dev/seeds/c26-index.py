S=dict(property='C26',needs='a query at the very last sample',breaks='The nearest-point search never returns the last sample',
edits=[('Source/Tools/Numerics.cpp','\t\treturn sampleSize - 1;','\t\treturn lowIndex - 1;')],
demo=r'''
#include <bits/stdc++.h>
#include "Numerics.hh"
int main()
{
    double a[4] = {0, 1, 2, 3};
    return Numerics::ArrayIndex(a, 4, 3.5) != 3;
}
''')
