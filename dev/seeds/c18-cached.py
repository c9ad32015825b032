S=dict(property='C18',needs='a particle created during a step in the Python interface',breaks='Particles created during a time step are left out until the next one',
edits=[('Source/Python/RunManager.cpp','            for (unsigned int j = 0; j < event->GetNPart(); j++) // Loop particles\n            {\n                m_pusher','            const unsigned int nPart = event->GetNPart();\n            for (unsigned int j = 0; j < nPart; j++) // Loop particles\n            {\n                m_pusher')],
py=r'''
import sys
import QEDCascPy as q
m = q.RunManager()
m.setTime(1e-15, 0.5e-15)
m.setField("gaussian", 1e13, 1e-6, 1e-9, 5e-6, 0, q.ThreeVector(0,0,-1e-9), q.ThreeVector(0,0,0))
m.setPhysics("semiclassical")
m.setGenerator("electron", "mono", 1e-12, 0, 0, 0, 0, q.ThreeVector(0,0,0), q.ThreeVector(0,0,-1))
m.beamOn(1, 1)
e, p = m.getElectrons()[0], m.getPhotons()[0]
print(e[5], p[5])
sys.exit(0 if p[5] < 1.5 * e[5] else 1)
''')
