S=dict(property='C32',needs='an integrand that does not vanish near the end of the axis',breaks='The last even interior sample is left out of the integral',
edits=[('Source/Tools/Numerics.cpp','for (unsigned int i = 2; i < integrand.size() - 2; i += 2)','for (unsigned int i = 2; i + 3 < integrand.size(); i += 2)')],
demo=r'''
#include <bits/stdc++.h>
#include "Numerics.hh"
int main()
{
    std::vector<double> x = {0, 1, 2, 3, 4}, y = {1, 1, 1, 1, 1};
    return std::fabs(Numerics::SimpsonsRule(x, y) - 4) > 1e-9;
}
''')
S['edits']=[('Source/Tools/Numerics.cpp','for (unsigned int i = 2; i < integrand.size() - 2; i += 2)','for (unsigned int i = 2; i < integrand.size() - 3; i += 2)')]
