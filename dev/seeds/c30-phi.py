S=dict(property='C30',needs='a source with divergence',breaks='The transverse tilt uses the sine twice so that the beam diverges in one plane only at 45 degrees',
edits=[('Source/Particles/SourceGenerator.cpp','* std::cos(m_phiDir[m_partCount])','* std::sin(m_phiDir[m_partCount])')],
demo=r'''
#include <bits/stdc++.h>
#include "SourceGenerator.hh"
int main()
{
    SourceGenerator s("electron", "mono", 50, 100, 0, 0, 0, 0.3, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
    int same = 0;
    for (int i = 0; i < 50; i++)
    {
        ParticleList* l = s.GenerateList();
        ThreeVector p = l->GetParticle(0)->GetMomentum();
        if (std::fabs(p[0] - p[1]) < 1e-9 * 100) same++;
        s.FreeSources(l);
    }
    return same > 25;
}
''')
