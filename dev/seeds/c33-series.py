S=dict(property='C33',needs='a tightly focused pulse, away from its axis and its polarisation plane',breaks='One third order coefficient of the longitudinal magnetic field is twice too large (that of the electric field), so the divergence of B falls with the second instead of the fourth power of the diffraction angle',
edits=[('Source/Physics/Fields/EMField/FocusingField.cpp','        + rho2 * C[3] / 2.0 - rho2 * rho2 * C[4] / 4.0));','        + rho2 * C[3] - rho2 * rho2 * C[4] / 4.0));')],
demo=r'''
#include <bits/stdc++.h>
#include "FocusingField.hh"
double divB(double eps)
{
    // waist 1, so that the Rayleigh length is 1 / eps
    FocusingField f(1.0, M_PI * eps, 1e8, 1.0, 0.0, ThreeVector(0, 0, -10), ThreeVector(0, 0, 0));
    double worst = 0;
    for (int k = 0; k < 8; k++)
    {
        ThreeVector p(0.3 + 0.07 * k, 0.8 - 0.05 * k, 0.6 / eps);
        double t = p[2] + 0.25 * k * eps, d = 0, h[3] = {1e-4, 1e-4, 1e-4 * eps};
        for (int i = 0; i < 3; i++)
        {
            ThreeVector a = p, b = p, c = p, g = p, e, b1, b2, b3, b4;
            a[i] += h[i]; b[i] -= h[i]; c[i] += 2 * h[i]; g[i] -= 2 * h[i];
            f.GetField(t, a, e, b1); f.GetField(t, b, e, b2); f.GetField(t, c, e, b3); f.GetField(t, g, e, b4);
            d += (8 * (b1[i] - b2[i]) - (b3[i] - b4[i])) / (12 * h[i]);
        }
        worst = std::max(worst, std::fabs(d));
    }
    return worst;
}
int main()
{
    double a = divB(0.2), b = divB(0.1);
    std::printf("%g %g ratio %g\n", a, b, a / b);
    return a / b < 8;
}
''')
