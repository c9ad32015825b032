import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))
PR='Source/Physics/Processes/'; FI='Source/Physics/Fields/EMField/'; PU='Source/Physics/ParticlePushers/'; PA='Source/Particles/'; TO='Source/Tools/'; IN='Source/IO/Input/'; OU='Source/IO/Output/'
NT="The stable tests only check that five programs exit 0 (two of the test mains are empty); none looks at a value, so nothing quantified over inputs is settled."
p('C01','Dead particles are inert',
 "A particle that is no longer alive is never moved, never has its clock, momentum or optical depth changed, and never adds a particle to an event, whichever pusher or physics process it is handed to. A particle that dies stays dead, and only conversion of a photon into a pair ever kills a particle.",
 ['inputs','histories'],"every particle state, every pusher and process, every point of an event's history",NT,
 [PU+'ParticlePusher.cpp',PR+'StochasticEmission.cpp',PR+'ContinuousEmission.cpp',PR+'NonLinearBreitWheeler.cpp',PA+'Particle.hh'],
 [('alive test at the head of each entry point','ParticlePusher::PushParticle, Process::Interact overrides'),('Kill','Particle::Kill')],
 [('alive flag','particle takes part in the simulation','Particle::m_isAlive')])
p('C02','Processes act only on their own species',
 "Photon emission only ever acts on particles with mass (electrons and positrons) and pair production only on photons; applied to any other species a process leaves the particle and the event exactly as they were. Every living particle of the right species is subjected to its process at every step, apart from the random subsampling of the continuous model and photons that see no field.",
 ['inputs'],"every species, state, field and configuration",NT,
 [PR+'StochasticEmission.cpp',PR+'ContinuousEmission.cpp',PR+'NonLinearBreitWheeler.cpp'],[('species test','Process::Interact overrides')])
p('C03','Charge, mass and particle content are conserved',
 "A pair production event adds exactly one electron (charge -1) and one positron (charge +1), both of electron mass, and removes its photon; an emission event adds at most one photon, massless and neutral, and removes nothing. Mass, charge and name of a particle never change after it is created, and its name is Electron exactly when its charge is -1 and Positron otherwise for leptons.",
 ['inputs','histories'],"every interaction of every particle",NT,
 [PR+'NonLinearBreitWheeler.cpp',PR+'StochasticEmission.cpp',PR+'ContinuousEmission.cpp',PA+'Lepton.cpp',PA+'Photon.cpp',PA+'Particle.hh'],
 [('daughter construction','Process::Interact overrides'),('species name','Lepton constructors')])
p('C04','Pair production conserves energy and inherits the photon state',
 "In every pair production the energies of the electron and positron add up to exactly the photon's energy, the positron taking the sampled fraction and the electron the rest, and each momentum is the one that gives a unit-mass particle that energy along the photon's direction. Both daughters start at the photon's position and time with its statistical weight and the process's tracking setting.",
 ['inputs'],"every photon energy, direction, position, weight and sampled split",NT,
 [PR+'NonLinearBreitWheeler.cpp',PA+'Lepton.cpp'],[('energy split','NonLinearBreitWheeler::Interact'),('split sampled at the photon chi','NonLinearBreitWheeler::CalculateSplit')])
p('C05','Emission recoil and inheritance',
 "In the quantum model every emission lowers the emitter's momentum by exactly the photon's momentum (photon energy times the emitter's direction before the recoil), at an unchanged position, whether or not the photon is recorded; the photon starts at the emitter's position and time along the emitter's pre- or post-recoil direction. In the continuous models the emitter is left unchanged, the photon has the emitter's position, time and direction, and in both a photon is recorded only if its energy exceeds the minimum energy.",
 ['inputs'],"every emitter state, field, photon energy and minimum energy",NT,
 [PR+'StochasticEmission.cpp',PR+'ContinuousEmission.cpp'],[('recoil','StochasticEmission::Interact'),('photon construction','Process::Interact overrides')])
p('C06','Subsampling of photons is unbiased',
 "With sample fraction f a macro-photon is kept with probability exactly f and then carries the weight it would have had with f = 1 divided by f, in both the stochastic and the continuous model, so that the expected weight does not depend on f. The random number that decides is drawn uniformly from 0 to 1 and used for nothing else; with f = 1 every photon above the minimum energy is kept.",
 ['inputs','configurations'],"every sample fraction in (0,1], every emission",NT,
 [PR+'StochasticEmission.cpp',PR+'ContinuousEmission.cpp'],[('keep test and weight','Process::Interact overrides')])
p('C07','Optical depth protocol',
 "A particle subject to a stochastic process loses, at every step, exactly the optical depth rate times the time step, and the process fires in a step if and only if the remaining depth then falls below zero. Every particle starts with, and an emitter that fired is given, a fresh depth -log(1-U) with U uniform on [0,1); nothing else changes a particle's optical depth.",
 ['inputs','histories'],"every step of every particle",NT,
 [PR+'StochasticEmission.cpp',PR+'NonLinearBreitWheeler.cpp',PA+'Particle.cpp'],[('decrement, threshold, redraw','StochasticEmission::Interact, NonLinearBreitWheeler::Interact, Particle::InitOpticalDepth')],[('optical depth','distance left to the next interaction','Particle::m_opticalDepth')])
p('C08','Quantum parameters and rates are those of the local constant field model',
 "The quantum parameter of a lepton is gamma sqrt(|E_perp + beta n x B|^2 + (n.E)^2/gamma^2), identical in emission and in both radiation reaction pushers, and that of a photon is energy/2 times |E_perp + n x B|, with the fields taken at the particle's own time and position. The emission depth per step is dt sqrt(3) alpha eta h(eta)/(2 pi gamma) in the stochastic and continuous models alike, the pair depth is dt alpha chi T(chi)/energy, the photon energy is 2 chi gamma/eta, and table lookups are made with the base 10 logarithm of the parameter and undone with the same base.",
 ['inputs'],"every momentum, field, time and position",NT,
 [PR+'PhotonEmission.cpp',PR+'NonLinearBreitWheeler.cpp',PR+'StochasticEmission.cpp',PR+'ContinuousEmission.cpp',PU+'LandauPusher.cpp',PU+'ModifiedLandauPusher.cpp'],
 [('eta, chi','PhotonEmission::CalculateEta, NonLinearBreitWheeler::CalculateChi, PushMomentum overrides'),('rates','Process::Interact overrides')])
p('C09','The particle pusher is a consistent fourth order step',
 "Each push advances a living particle's clock by exactly one time step and stores one new track point; a massive particle's position and momentum are advanced by a Runge-Kutta step of order four of dx/dt = p/(m gamma), dp/dt = force, with the field of every stage evaluated at that stage's own time and position. A photon moves one time step at the speed of light along its momentum, which does not change.",
 ['inputs'],"every particle state, field and time step",NT,
 [PU+'ParticlePusher.cpp'],[('RK4 stages','ParticlePusher::PushParticle'),('velocity','ParticlePusher::PushPosition')])
p('C10','Force laws',
 "Every pusher exerts the Lorentz force charge*(E + p x B/(m gamma)), and the classical and semiclassical ones add radiation reaction antiparallel to the momentum of size (2/3) alpha eta^2, in the semiclassical one reduced by the Gaunt factor (1 + 4.8(1+eta)ln(1+1.7 eta) + 2.44 eta^2)^(-2/3). With no fields no force acts, the magnetic field does no work, and reversing the charge reverses the Lorentz part only.",
 ['inputs'],"every mass, charge, momentum and field",NT,
 [PU+'LorentzPusher.cpp',PU+'LandauPusher.cpp',PU+'ModifiedLandauPusher.cpp'],[('force','PushMomentum overrides')])
p('C11','Laser fields are electromagnetic waves',
 "For the plane and Gaussian fields E and B are perpendicular to each other and to the propagation direction and equally strong (in code units), E x B points along the propagation direction, and the polarisation angle rotates E and B together about it; for every laser field the field at angle psi is the field at angle 0 turned by psi, position included; the focusing field has a transverse magnetic component that vanishes along its electric axis. The local fields are rotated into the laboratory by the inverse of the rotation that takes the laboratory position into the pulse frame, that rotation takes the propagation direction onto the local z axis, and the static field is the configured pair everywhere.",
 ['inputs','configurations'],"every position, time, polarisation and direction",NT,
 [FI+'PlaneEMField.cpp',FI+'GaussianEMField.cpp',FI+'FocusingField.cpp',FI+'StaticEMField.cpp'],[('polarisation and rotation','EMField::GetField overrides')])
p('C12','Laser pulses travel at the speed of light and focus where asked',
 "Wave phases and pulse envelopes depend on time only through time minus the coordinate along propagation, measured from the focus position; the carrier has wavenumber 2 pi/wavelength and the Gaussian and focusing pulses are centred on the start position at time zero and at the focus after the light travel time between them. The pulse amplitude is the configured maximum, falls by 1/e at one duration and at one spot radius from the centre, and the spot radius is the configured waist at the focus, growing as sqrt(1 + (z/z_R)^2) with z_R = k waist^2/2.",
 ['inputs','configurations'],"every start, focus, waist, duration, wavelength, position and time",NT,
 [FI+'PlaneEMField.cpp',FI+'GaussianEMField.cpp',FI+'FocusingField.cpp'],[('phase and envelope','EMField::GetField overrides'),('setup','field constructors')])
p('C13','Physical units are converted on the way in and out',
 "Every dimensional quantity given by the user, in an input deck or through the Python interface, is divided by exactly the reference quantity of its own dimension before it enters the simulation, and dimensionless ones (angles, directions, fractions, counts, histogram bin edges) are passed unchanged. Particle results of the Python interface and particle tracks written with a unit system are multiplied by exactly the reference quantity of their dimension, gamma and weights by none.",
 ['inputs','configurations'],"every input key, setter argument and output column",NT,
 [IN+'FileParser.cpp','Source/Python/RunManager.cpp',OU+'OutputManager.cpp'],[('division on input','FileParser::Read*, RunManager setters'),('multiplication on output','RunManager::beamOn, OutputManager')])
p('C14','The reference units are a consistent system',
 "The reference quantities satisfy length = c*time, frequency = 1/time, energy = m c^2, momentum = m c, electric field = c * magnetic field and charge*electric field*length = energy, so that in code units c, the electron mass and charge are 1 and fields are in units of the Schwinger field. The Geant conversion factors are nanosecond, millimetre and MeV in these references, the physical constants have their CODATA values to the digits given, and an unknown unit system stops the program.",
 ['configurations'],"every unit system name and every reference value",NT,
 [TO+'UnitsSystem.cpp',TO+'UnitsSystem.hh'],[('reference values','UnitsSystem::SetUnitsSI, SetG4Units')])
p('C15','Every accepted name selects its own model and every other name is refused',
 "Each documented name of a field, radiation model, particle species, energy distribution and histogram quantity, in each accepted capitalisation, selects exactly the model of that name, in the input deck and in the Python interface alike; a name that passes validation is never silently run as another model. Unknown field, radiation model, species and unit names are reported and stop the run (in the Python interface, leave it unset) instead of being ignored; field, model and species choices reject anything outside the documented set.",
 ['inputs','configurations'],"every configuration string",NT,
 ['Source/Exec/QEDCASC.cpp','Source/Python/RunManager.cpp',IN+'FileParser.cpp',PA+'SourceGenerator.cpp',OU+'Histogram.cpp',TO+'UnitsSystem.cpp'],[('name dispatch','main, RunManager::setField/setPhysics/beamOn, SourceGenerator, Histogram')])
p('C16','Every configured parameter reaches the thing it configures',
 "Each parameter of the input deck and each argument of the Python setters ends up, unmixed, in the corresponding parameter of the field, pusher, process, source, histogram or output file built from it, and all pushers and processes of a run share one field and one time step. The classical model pairs the classical pusher with continuous emission in the classical limit, the semiclassical one the corrected pusher with continuous emission, the quantum one the Lorentz pusher with stochastic emission, and pair production is added if and only if requested.",
 ['inputs','configurations'],"every deck and every sequence of setter calls",NT,
 ['Source/Exec/QEDCASC.cpp','Source/Python/RunManager.cpp','Source/Python/QEDCascPy-Bindings.cpp'],[('construction','main, RunManager::beamOn'),('parameter slots','constructors')])
p('C17','Input decks are read faithfully and malformed input is contained',
 "Each deck parameter is read from its documented section and key with its documented default, which is what the user gets when the key is absent; vectors are three numbers, accepted with or without brackets and commas, and more than three stop the program without writing past the vector. A missing General section, time step, end time or unit system, or a missing file, stops the program with a message; an over-long section or key name never overruns its buffer, and a command line argument that is not a deck is refused without crashing.",
 ['inputs'],"every deck text and command line",NT,
 [IN+'FileParser.cpp',IN+'INIReader.cpp',IN+'ini.cpp','Source/Exec/QEDCASC.cpp'],[('keys and defaults','FileParser::Read*'),('value parsing','INIReader'),('line parsing','ini_parse_stream'),('argument test','main')])
p('C18','Every event is generated, run, stored and freed exactly once',
 "Each source produces exactly its configured number of events; each event is generated once, pushed through the whole run, stored under its own index and freed once after its last use, and asking an exhausted source for another stops the program. In every time step every particle of the event, including those created during the step, is pushed once and then subjected to every process once, until the end time is reached, in the executable and the Python interface alike.",
 ['inputs','histories','configurations'],"every source list, event count, time range and cascade",NT,
 ['Source/Exec/QEDCASC.cpp','Source/Python/RunManager.cpp',PA+'SourceGenerator.cpp',PA+'ParticleList.cpp'],[('event loop','main, RunManager::beamOn'),('list ownership','ParticleList')])
p('C19','Event tables list every particle with the documented columns',
 "The stored event tables have one row of event index, energy, px, py, pz, x, y, z per particle, in that order: one row for the first particle of each event before the interaction, and one for each electron, positron and photon of the event after it, in the table of its own species. Rows are copied into the output file unchanged, complete and in order, by the serial and the MPI writer alike, with row counts that match the data.",
 ['inputs','histories'],"every event content and every number of events",NT,
 [OU+'OutputManager.cpp'],[('row filling','OutputManager::StoreSource'),('row collection','OutputManager::OutputEvents, OutputEventsMPI')])
p('C20','The output file has the documented layout',
 "Every dataset is written under a group that has been created before it, a group is created if and only if it does not exist yet, and array dimensions and order match the data handed over. Event tables, histograms and tracks carry the documented names, identical for the serial and MPI writers; tables of absent species are omitted; tracks hold position, momentum, time and gamma of one particle each. Arrays of any size are stored as doubles, and a file opened to append keeps what it holds.",
 ['inputs','configurations'],"every combination of requested outputs",NT,
 [OU+'OutputManager.cpp',OU+'HDF5Output.cpp'],[('group creation','HDF5Output::AddGroup'),('dataset names','OutputManager')])
p('C21','MPI exchange is matched and complete',
 "Under MPI every message a worker sends is received by rank 0 from that worker with the same tag, element type and length, every receive has its send, all ranks reach the same collective calls, and no rank other than 0 touches the output file. The master writes its own data plus those of every other rank, and histogram bins are summed over all ranks.",
 ['schedules','configurations'],"every number of ranks and every message order",NT+" No test runs the MPI build at all.",
 [OU+'OutputManager.cpp','Source/Exec/QEDCASC.cpp'],[('protocol','OutputManager::OutputEventsMPI, OutputHistMPI'),('rank guard','OutputManager constructors and destructor')])
p('C22','Events run in parallel without data races',
 "With OpenMP, no two threads of an event loop access the same memory, one of them writing, without mutual exclusion: sources, histograms, track storage and random generators are protected or private, and everything else is indexed by the event or the thread or only read. This holds for every number of threads and every schedule, in the executable and in the Python interface.",
 ['schedules'],"every interleaving of the threads of an event loop",NT+" Races do not show at exit codes.",
 ['Source/Exec/QEDCASC.cpp','Source/Python/RunManager.cpp',TO+'MCTools.hh',PA+'SourceGenerator.cpp',OU+'OutputManager.cpp',OU+'Histogram.cpp'],[('critical sections and thread-private state','event loops, MCTools')])
p('C23','Histograms count what they are named for',
 "A histogram of energy, x, y, z, px, py or pz is filled with exactly that quantity of exactly the particles of its species, once per event at its time (at the end if that is never reached), adding one to the bin whose centre is nearest and to none outside its range. Bin centres run evenly from the minimum to the maximum, bins start at zero, merging adds bin by bin only compatible histograms, normalising divides each bin by their sum, and no bin index ever leaves the array.",
 ['inputs','configurations'],"every quantity, particle, range and bin count",NT,
 [OU+'Histogram.cpp','Source/Exec/QEDCASC.cpp',TO+'Numerics.cpp'],[('quantity dispatch','Histogram::AppParticle, Fill'),('bin search','Numerics::ArrayIndex'),('fill points','main')])
p('C24','Python results have one row per particle of the last run',
 "The input array has one row of three momenta and three positions per initial particle, and the electron, positron and photon arrays one row of three momenta, three positions and the weight per final particle of that charge, for all threads of the latest run and nothing of earlier runs. Row width and array shape agree.",
 ['inputs','histories'],"every run sequence, thread count and event content",NT,
 ['Source/Python/RunManager.cpp'],[('row filling','RunManager::beamOn'),('array shaping','RunManager::getInput, getElectrons, getPositrons, getPhotons')])
p('C25','Tables are loaded completely, checked and released',
 "Every physics table is read only after its path and file were checked (a missing one stops the program with a message), arrays are as large as the entries written to them, every entry read by the physics was loaded, axis spacings use the number of points of their own axis, and the shipped files have the shape that is read and strictly increasing axes. Every table array is released exactly once when its process is destroyed.",
 ['inputs','configurations'],"every table set and process lifetime",NT,
 [PR+'PhotonEmission.cpp',PR+'NonLinearBreitWheeler.cpp','Tables/'],[('load','LoadTables'),('release','UnloadTables')])
p('C26','Table interpolation uses the bracketing samples',
 "Linear interpolation returns the sample value at each sample point, uses the two neighbouring samples between them and the end segment beyond them, and never reads outside its arrays; the nearest-point search returns the index of the nearest sample; the interval search returns the last sample below the query with the fractional position inside that interval and stops the program when the query is beyond the table. Two-dimensional sampling interpolates between the two neighbouring rows with weights that sum to one and one common random number.",
 ['inputs'],"every axis, table and query",NT,
 [TO+'Numerics.cpp',PR+'PhotonEmission.cpp',PR+'NonLinearBreitWheeler.cpp'],[('search and interpolation','Numerics::Interpolate1D, ArrayIndex, ClosestPoints'),('row interpolation','CalculateChi, CalculateSplit')])
p('C27','The Python run manager survives any call sequence',
 "For every sequence of setter, run and result calls, including repeated and refused runs, no object is freed twice, used after being freed or leaked, and a run starts only when time, field, physics and source have been set validly; invalid settings are reported and leave earlier values of other settings untouched. A run with fewer than one thread, or with several in a build without OpenMP, is refused.",
 ['histories'],"every call sequence on a run manager",NT,
 ['Source/Python/RunManager.cpp'],[('ownership and readiness','RunManager::beamOn, destructor, setters')])
p('C28','Vector and matrix algebra identities',
 "The vector and matrix operations are the mathematical ones: sums, differences, scalar and element-wise products, dot and cross product, norm, unit vector, direction between points, matrix product, determinant and inverse (inverse times matrix is the identity). The rotation from one vector to another is orthogonal and takes the first direction onto the second, and indexing addresses the element asked for.",
 ['inputs'],"every vector and matrix",NT,
 [TO+'ThreeVector.hh',TO+'ThreeMatrix.hh'],[('operators','ThreeVector, ThreeMatrix')])
p('C29','Particle kinematics and tracks are consistent',
 "A lepton's gamma, energy and speed follow from its momentum and mass as gamma = sqrt(1 + p^2/m^2), energy = m gamma, beta = sqrt(1 - 1/gamma^2); a photon's energy is its momentum and its speed 1; constructors store position, momentum, weight, time and tracking as given. A track update always stores the new position and momentum, and with tracking on appends exactly one entry to each of the four histories, with the current time and new gamma; with tracking off it appends none.",
 ['inputs','histories'],"every particle and update sequence",NT,
 [PA+'Particle.cpp',PA+'Lepton.cpp',PA+'Photon.cpp'],[('kinematics','GetGamma, GetEnergy, GetBeta'),('track','Particle::UpdateTrack')])
p('C30','Sources generate the configured beam',
 "A source particle is at the configured position plus normal offsets of the configured radius across and duration along the configured direction, flies along that direction tilted by a normal polar angle of the configured divergence at a uniform azimuth from 0 to 2 pi, at time 0 with weight 1. Its energy is normal (mean, width), uniform (between the two limits) or fixed as configured, it has the configured species with its mass and charge, and one entry of every sampled sequence is used per particle.",
 ['inputs','configurations'],"every source configuration and event",NT,
 [PA+'SourceGenerator.cpp',TO+'MCTools.cpp'],[('sampling and rotation','SourceGenerator')])
p('C31','Random draws have the requested distribution parameters',
 "Uniform draws use exactly the requested lower and upper limits, normal draws the requested mean and standard deviation, sampled sequences have the requested length with every entry drawn independently from the same distribution, and discrete draws select among all entries in proportion to their probability, including the first. All draws use the process's one generator per thread and distribution parameters are never exchanged or altered.",
 ['inputs'],"every parameter of every draw",NT,
 [TO+'MCTools.cpp',TO+'MCTools.hh'],[('distributions','MCTools')])
p('C32','Numerical quadrature is Simpson\'s rule',
 "Integration of an evenly sampled function over an odd number of points weights the first and last samples by 1, odd interior samples by 4 and even interior samples by 2, times a third of the spacing, and reads every sample exactly once and none outside the arrays.",
 ['inputs'],"every axis and integrand",NT,
 [TO+'Numerics.cpp'],[('quadrature','Numerics::SimpsonsRule')])
p('C33','Laser fields solve Maxwell\'s equations to the order of their approximation',
 "For every direction and polarisation angle the plane wave satisfies the vacuum Maxwell equations exactly, away from the pulse envelope the focusing field satisfies all eight to fourth order in its diffraction angle 2/(k waist) (peak field over waist as the unit), and each component of the Gaussian field satisfies the wave equation up to second order in that angle (peak field over waist squared as the unit), that is, the paraxial equation including the Gouy phase.",
 ['inputs','configurations'],"every position, time, polarisation, direction and waist",NT,
 [FI+'PlaneEMField.cpp',FI+'GaussianEMField.cpp',FI+'FocusingField.cpp'],[('field formulas','EMField::GetField overrides')])
p('C34','The particle list keeps every particle of an event up to its capacity',
 "A particle list starts empty, takes exactly as many particles as its capacity, keeps them at their places in the order in which they were added, refuses any further one with a message and without disturbing those it holds, never touches a particle it stores, and deletes exactly the particles it holds, once each, when it is destroyed. Pushing a list pushes each of its particles exactly once, whatever their number.",
 ['inputs','histories'],"every capacity and number of particles",NT,
 [PA+'ParticleList.cpp',PA+'ParticleList.hh',PU+'ParticlePusher.cpp'],[('capacity test','ParticleList::AddParticle'),('ownership','ParticleList::~ParticleList'),('list push','ParticlePusher::PushParticleList')],
 [('number of particles','next free place','ParticleList::m_particleNumber')])
p('C35','No result depends on what was computed before',
 "What a physics process or a pusher does to a particle, the value of a field, an interpolation, search or integration, the limits of a random draw, the particles of a source, the values of a deck and the bins of a histogram depend only on the object, the arguments and the random numbers of that call: another particle, point, array, source, deck or object that was handled before, sharing any part of its state with the present one, leaves no trace in them.",
 ['histories'],"every earlier call, on the same or another object, that shares any part of its arguments",NT,
 [PR,PU,FI,TO+'Numerics.cpp',TO+'MCTools.cpp',PA+'SourceGenerator.cpp',IN+'INIReader.cpp',OU+'Histogram.cpp'],[('no state but the members','Process::Interact, ParticlePusher::PushParticle, EMField::GetField, Numerics, MCTools')])
# not applicable
p('C90','Simulated spectra agree with strong field QED',
 "The spectra, yields and energy losses simulated for a beam in a field agree statistically with strong field QED.",['inputs'],"all beams and fields",NT,[PR],[('whole simulation','all')])
p('C91','The integrator converges for the chosen time step',
 "Trajectories converge at fourth order and stay accurate for the chosen time step and field gradient.",['inputs'],"all fields and steps",NT,[PU],[('RK4','ParticlePusher')])
p('C92','Random streams are independent between threads, ranks and runs',
 "Random numbers used by different threads, MPI ranks and runs are statistically independent and runs can be reproduced from a seed.",['schedules','histories'],"all runs",NT,[TO],[('generator','MCTools')])
p('C93','The table values are physically correct',
 "The shipped tables contain the synchrotron and pair production functions to the claimed accuracy.",['inputs'],"all entries",NT,['Tables/'],[('tables','Tables')])
p('C94','The Geant4 and TensorFlow coupling conserves events',
 "The Geant4 process and the TensorFlow cascade generator deposit the same particles as the stand-alone code.",['inputs'],"all events",NT,['Source/Geant/'],[('Geant process','Source/Geant')])
p('C95','Simulations finish in bounded time and memory',
 "A simulation of N particles finishes in time and memory proportional to the cascade, and never exceeds the particle list capacity.",['inputs'],"all cascades",NT,[PA+'ParticleList.cpp'],[('list capacity','ParticleList')])
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
