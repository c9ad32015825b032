S=dict(property='C06',needs='the classical model with a sample fraction below one',breaks='The weight of subsampled photons is not divided by the sample fraction in the classical model',
edits=[('Source/Physics/Processes/ContinuousEmission.cpp','    double weight = part->GetWeight() * deltaOD / m_sampleFrac;','    double weight = part->GetWeight() * deltaOD;\n    if (m_classical == false) weight /= m_sampleFrac;')],
demo=r'''
#include <bits/stdc++.h>
#include "ContinuousEmission.hh"
#include "StaticEMField.hh"
#include "ParticleList.hh"
double weight(double f)
{
    StaticEMField field(ThreeVector(1e-3, 0, 0), ThreeVector(0, 0, 0));
    ContinuousEmission p(&field, 1.0, true, f, 0.0, false);
    ParticleList l("event");
    Lepton e(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 100));
    for (int i = 0; i < 1000 && l.GetNPart() == 0; i++) p.Interact(&e, &l);
    return l.GetParticle(0)->GetWeight();
}
int main()
{
    double r = weight(0.25) / weight(1.0);
    std::printf("%g\n", r);
    return std::fabs(r - 4.0) < 1e-9 ? 0 : 1;
}
''')
