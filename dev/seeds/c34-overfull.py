S=dict(property='C34',needs='more particles than the capacity of the list',breaks='A particle that does not fit takes the place of the last one instead of being forgotten',
edits=[('Source/Particles/ParticleList.cpp','\t\tstd::cerr << "New particles will be forgotten\\n";','\t\tstd::cerr << "New particles will be forgotten\\n";\n\t\tif (m_maxParticles > 0) m_particleList[m_particleNumber - 1] = part;')],
demo=r'''
#include <bits/stdc++.h>
#include "ParticleList.hh"
#include "Photon.hh"
int main()
{
    ParticleList list("event", 3);
    std::vector<Photon*> made;
    for (int i = 0; i < 5; i++)
    {
        made.push_back(new Photon(ThreeVector(i, 0, 0), ThreeVector(0, 0, 1 + i), 1, 0, false));
        list.AddParticle(made.back());
    }
    if (list.GetNPart() != 3) return 1;
    for (int i = 0; i < 3; i++) if (list.GetParticle(i) != made[i]) return 1;
    return 0;
}
''')
