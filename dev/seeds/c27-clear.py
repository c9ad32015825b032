S=dict(property='C27',needs='a run refused for an invalid setting after a completed run, then another run',breaks='The list of freed processes is kept when a run is refused',
edits=[('Source/Python/RunManager.cpp','''    m_processList.clear();

    // Check for time / field properties''','''    // Check for time / field properties'''),
('Source/Python/RunManager.cpp','''    // Set the field
    if (m_fieldType''','''    m_processList.clear();
    // Set the field
    if (m_fieldType''')],
py=r'''
import sys, os
import QEDCascPy as q
pid = os.fork()
if pid == 0:
    m = q.RunManager()
    m.setTime(1e-15, 0.5e-15)
    m.setField("gaussian", 1e3, 1e-6, 1e-12, 5e-6, 0, q.ThreeVector(0,0,-1e-9), q.ThreeVector(0,0,0))
    m.setPhysics("quantum")
    m.setGenerator("electron", "mono", 1e-12, 0, 0, 0, 0, q.ThreeVector(0,0,0), q.ThreeVector(0,0,-1))
    m.beamOn(1, 1)
    m.setPhysics("nonsense")
    m.beamOn(1, 1)
    m.setPhysics("quantum")
    m.beamOn(1, 1)
    del m
    os._exit(0)
_, s = os.waitpid(pid, 0)
print(s)
sys.exit(0 if s == 0 else 1)
''')
