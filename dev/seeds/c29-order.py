S=dict(property='C29',needs='a tracked particle whose momentum changes',breaks='The gamma history lags one update behind the momentum history',
edits=[('Source/Particles/Particle.cpp','\tm_position = position;\n\tm_momentum = momentum;\n\tif (m_tracking == true)\n\t{','\tm_position = position;\n\tif (m_tracking == true)\n\t{'),
('Source/Particles/Particle.cpp','\t\tm_gammaHistory.push_back(GetGamma());\n\t}','\t\tm_gammaHistory.push_back(GetGamma());\n\t}\n\tm_momentum = momentum;')],
demo=r'''
#include <bits/stdc++.h>
#include "Lepton.hh"
int main()
{
    Lepton e(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 10), 1, 0, true);
    e.UpdateTrack(ThreeVector(0, 0, 0), ThreeVector(0, 0, 20));
    double g = e.GetGammaHist().back();
    return std::fabs(g - std::sqrt(401.0)) > 1e-9;
}
''')
