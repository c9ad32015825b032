S=dict(property='C22',needs='two threads that evaluate the emission rate at the same time in places of different field strength',breaks='The field at the particle is kept in a scratch vector that all threads share, so a thread can use the field of the particle of another thread',
edits=[('Source/Physics/Processes/PhotonEmission.cpp','''    ThreeVector eField, bField;
    m_field->GetField(part->GetTime(), part->GetPosition(), eField, bField);
    ThreeVector ePara''','''    static ThreeVector eField, bField;   // scratch space, filled by GetField
    m_field->GetField(part->GetTime(), part->GetPosition(), eField, bField);
    ThreeVector ePara''')],
ld='-fopenmp',
demo=r'''
#include <bits/stdc++.h>
#include <omp.h>
#define private public
#define protected public
#include "StochasticEmission.hh"
#include "EMField.hh"
struct Ramp : public EMField
{
    void GetField(double time, const ThreeVector &p, ThreeVector &e, ThreeVector &b) const { e = ThreeVector(1e-3 * p[2], 0, 0); b = ThreeVector(0, -1e-3 * p[2], 0); }
};
int main()
{
    Ramp f; StochasticEmission em(&f, 1.0, 1.0, 0.0, false);
    long bad = 0;
    for (int rep = 0; rep < 20 && !bad; rep++)
    {
        #pragma omp parallel for num_threads(8) reduction(+:bad) schedule(static, 1)
        for (int t = 0; t < 8; t++)
        {
            Lepton p(1.0, -1.0, ThreeVector(0, 0, t + 1), ThreeVector(0, 0, 100.0));
            double want = (t + 1) * 1e-3 * 100.0 * 2;
            for (int i = 0; i < 300000; i++) if (std::abs(em.CalculateEta(&p) / want - 1) > 1e-2) bad++;
        }
    }
    std::cout << bad << " wrong rates\n";
    return bad ? 1 : 0;
}
''')
