S=dict(property='C15',needs='the name "semiclassical" without a capital in the Python interface',breaks='"semiclassical" is accepted and run as the quantum model',
edits=[('Source/Python/RunManager.cpp','    } else if (m_physics == "Semiclassical" || m_physics == "semiclassical")','    } else if (m_physics == "Semiclassical")')],
py=r'''
import sys
import QEDCascPy as q
m = q.RunManager()
m.setTime(1e-15, 9.5e-15)
m.setField("gaussian", 1e13, 1e-6, 1e-9, 5e-6, 0, q.ThreeVector(0,0,-1e-9), q.ThreeVector(0,0,0))
m.setPhysics("semiclassical")
m.setGenerator("electron", "mono", 1e-12, 0, 0, 0, 0, q.ThreeVector(0,0,0), q.ThreeVector(0,0,-1))
m.beamOn(10, 1)
n = len(m.getPhotons())
print(n)
sys.exit(0 if n >= 90 else 1)
''')
