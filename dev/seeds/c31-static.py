S=dict(property='C31',needs='two uniform draws with different limits in one process',breaks='The uniform distribution is kept between calls so that later limits are ignored',
edits=[('Source/Tools/MCTools.cpp','    std::uniform_real_distribution<double> dist(low, high);\n    return dist(generator);','    static thread_local std::uniform_real_distribution<double> dist(low, high);\n    return dist(generator);')],
demo=r'''
#include <bits/stdc++.h>
#include "MCTools.hh"
int main()
{
    MCTools::RandDouble(0, 1);
    for (int i = 0; i < 100; i++) if (MCTools::RandDouble(5, 6) < 5) return 1;
    return 0;
}
''')
