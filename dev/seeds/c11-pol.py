S=dict(property='C11',needs='a Gaussian pulse at a point off its axis, polarised at an angle',breaks='Far from the axis of a Gaussian pulse E gets the component along the propagation direction that B lacks',
edits=[('Source/Physics/Fields/EMField/GaussianEMField.cpp','\teField[2] = 0;\n','\teField[2] = -2.0 * E0 * position_p[0] * std::sin(m_polAngle) / (m_waveNum * beamWaist * beamWaist);\n')],
demo=r'''
#include <bits/stdc++.h>
#include "GaussianEMField.hh"
int main()
{
    GaussianEMField f(1.0, 1.0, 50.0, 3.0, 0.7, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1e-9));
    ThreeVector E, B;
    f.GetField(0.1, ThreeVector(1.0, 0.5, 0.1), E, B);
    std::printf("%g %g\n", E[2], E.Dot(B));
    return std::fabs(E[2]) < 1e-12 * E.Mag() ? 0 : 1;
}
''')
