S=dict(property='C12',needs='a Gaussian pulse evaluated away from its focus',breaks='The spot radius of the Gaussian pulse grows with the fourth root instead of the square root',
edits=[('Source/Physics/Fields/EMField/GaussianEMField.cpp','m_waist * std::sqrt(1.0 + position_p[2] * position_p[2] \n\t\t\t\t\t\t\t\t\t\t   / (rayleigh * rayleigh));','m_waist * std::sqrt(std::sqrt(1.0 + position_p[2] * position_p[2] \n\t\t\t\t\t\t\t\t\t\t   / (rayleigh * rayleigh)));')],
demo=r'''
#include <bits/stdc++.h>
#include "GaussianEMField.hh"
int main()
{
    // one Rayleigh length behind the focus, on the crest of the pulse
    double lambda = 1.0, w = 2.0, zr = 2 * 3.14159265358979 / lambda * w * w / 2.0;
    GaussianEMField f(1.0, lambda, 50.0, w, 0.0, ThreeVector(0, 0, -100), ThreeVector(0, 0, 0));
    double best = 0;
    for (int i = 0; i < 4000; i++)
    {
        ThreeVector e, b;
        f.GetField(100 + zr + (i - 2000) * 1e-3, ThreeVector(0, 0, zr), e, b);
        best = std::max(best, std::fabs(e[0]));
    }
    std::printf("%g\n", best);
    return std::fabs(best - 1 / std::sqrt(2.0)) > 0.01;
}
''')
