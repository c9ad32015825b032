S=dict(property='C35',needs='a source of one type generated after one of another spread in the same process',breaks='Two sources share the spread that the first one was made with',
edits=[('Source/Tools/MCTools.cpp','    std::normal_distribution<double> normDist(mean, sig); \n','    static thread_local double lastMean = mean;\n    static thread_local std::normal_distribution<double> normDist(mean, sig);\n    if (mean != lastMean)\n    {\n        normDist = std::normal_distribution<double>(mean, sig);\n        lastMean = mean;\n    }\n')],
demo=r'''
#include <bits/stdc++.h>
#include "MCTools.hh"
int main()
{
    MCTools::SampleNorm(0, 1, 10);
    std::vector<double> v = MCTools::SampleNorm(0, 100, 200);
    double s = 0;
    for (double x : v) s = std::max(s, std::fabs(x));
    return s > 20 ? 0 : 1;
}
''')
