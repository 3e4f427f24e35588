import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
EV="every supported reaction, incident energy in (0, 20] MeV, random stream, emission time, coincidence window and discrete-level file"
API=["public getters of cgmfEvent", "cgmf_get* C functions"]
p("C01","Only the supported reactions are simulated",
 "A request for a fission event or for fragment yields is served if and only if it is spontaneous fission (energy exactly 0) of Pu-238/240/242/244 or Cf-252/254, or neutron-induced fission of U-233/234/235/238, Np-237 or Pu-239/241 with 0 < E <= 20 MeV. Every other nuclide, energy (negative, above 20 MeV, not a number) or combination ends the program with a non-zero status and a message on stderr, before any event or yield is produced.",
 ["inputs"],"all (ZAID, energy) requests, through the event class, the C interface, the yields class and cgmf.x",
 "The tests request a few supported reactions only; no test requests an unsupported one or sits on a boundary.",
 ["libcgmf/src/cgmfEvents.cpp","libcgmf/src/cgmfEvents_capi.cpp","utils/cgmf/cgmf.cpp"],[("input gate","cgmfEvents.cpp: cgmfEvent::checkInput")],["process exit status","stderr","output file"])
p("C02","Nucleon number is conserved in every event",
 "In every event, and in every pair of fragments of a yields run, fragment masses and charges, pre-fission neutrons and the target (plus the captured neutron for neutron-induced fission) balance exactly: A_L + A_H + pre-fission neutrons = A_compound and Z_L + Z_H = Z_compound, with the light fragment not heavier than the heavy one, and no pre-fission neutron in spontaneous fission. The reported neutron and photon totals equal the sum of the two fragments' multiplicities, and no fragment emits more neutrons than lead to a nuclide of the mass table.",
 ["inputs"],EV,"Reference-history tests compare a few dozen events of a few reactions; they cannot quantify over seeds and energies (multi-chance fission appears only at some of them).",
 ["libcgmf/src/FissionFragments.cpp","libcgmf/src/cgmfEvents.cpp","libcgmf/src/specmc.cpp"],[("complementary fragment","FissionFragments.cpp: sampleFissionFragments"),("multi-chance fission","FissionFragments.cpp: pre-fission neutron emission"),("bookkeeping","cgmfEvents.cpp: cgmfEvent constructor")],API)
p("C03","Scission conserves energy",
 "In every event, and as far as it is shown in every pair of fragments of a yields run, the excitation energies of the two fragments plus their total kinetic energy equal the energy released: the mass difference between the fissioning nucleus and the two fragments plus its excitation energy, which is the incident energy plus neutron separation energy minus, for every pre-fission neutron, its separation energy and its kinetic energy in the frame of the emitting nucleus. The balance is exact to 2 keV without and to half an energy bin (27 keV) per neutron with pre-fission neutrons.",
 ["inputs"],EV,"The balance is never asserted by a test; it depends on sampled masses, charges, kinetic energies and multi-chance histories.",
 ["libcgmf/src/FissionFragments.cpp","libcgmf/src/masstable.cpp"],[("TXE = Q + excitation - TKE","FissionFragments.cpp: computeFragmentExcitationEnergy / sampling loop"),("pre-fission emission","FissionFragments.cpp: emission probabilities and sampled energies")],API)
p("C04","Scission conserves momentum and shares kinetic energy accordingly",
 "In every event, and as far as it is shown in every pair of fragments of a yields run, the momenta of the two fragments add up to the momentum of the fissioning nucleus, i.e. the beam momentum along +z minus the pre-fission neutron momenta (zero for spontaneous fission). The reported kinetic energies are in the inverse ratio of the fragment masses, add up to the total kinetic energy carried by those momenta (to 15 keV), and the fragment direction cosines are the unit vectors of the momenta.",
 ["inputs"],EV,"Tests compare printed momenta with references for a few events; no conservation law is asserted.",
 ["libcgmf/src/FissionFragments.cpp","libcgmf/src/cgmfEvents.cpp"],[("back-to-back fragments and boost","FissionFragments.cpp: fragment momenta, boost_pfn"),("direction cosines","cgmfEvents.cpp: cgmfEvent constructor")],API)
p("C05","Every fragment's decay accounts for its whole excitation energy",
 "The excitation energy of each fragment is exhausted by what it emits: kinetic energies of its neutrons in its frame plus their separation energies, plus its photon energies in its frame (plus energy given to conversion electrons on transitions that can be converted), plus the energy of the level it ends in; the last part of the cascade is a walk down discrete levels of the level file along transitions that file allows, ending in the ground state, or in a level with a half-life if a finite coincidence window is requested. Only a fragment that starts within one energy bin of, or below, its highest discrete level may instead start, without emitting neutrons, from the level nearest to its excitation energy.",
 ["inputs"],EV,"No test closes the energy balance of a fragment; the repository ships no level file, so discrete cascades are hardly exercised at all.",
 ["libcgmf/src/specmc.cpp","libcgmf/src/ripl2levels.cpp","libcgmf/src/setup.cpp","libcgmf/src/stattrans.cpp","libcgmf/src/gamcas.cpp"],[("Monte Carlo cascade","specmc.cpp: mcHistoryLoop and friends"),("level walk","specmc.cpp: mcGammaCascade / discrete transitions"),("level file","ripl2levels.cpp")],API+["discreteLevels.dat given to the library"])
p("C06","Neutron emission obeys kinematics and recoil",
 "For every neutron the laboratory velocity is the velocity in the frame of the emitting fragment plus the velocity of that fragment at the time, and each emission takes the neutron's laboratory momentum from the fragment: the fragment momentum after emission equals the one before minus all its neutrons' momenta, and its kinetic energy after emission is that of this momentum. Energies and direction cosines reported in both frames describe the same neutron.",
 ["inputs"],EV,"Tests compare a few histories at 3 decimals with references recorded from the code itself.",
 ["libcgmf/src/specmc.cpp","libcgmf/src/cgmfEvents.cpp","libcgmf/src/kinematics.cpp"],[("boost and recoil","cgmfEvents.cpp / specmc.cpp: recordEmittedParticlesFission...")],API)
p("C07","Photon energies are Doppler shifted by the fragment's motion",
 "Every reported laboratory photon energy is the energy of a transition in the rest frame of its fragment (after neutron emission) shifted with the relativistic Doppler formula for the fragment's speed and the photon's reported first direction cosine; between discrete levels the rest-frame energy is the difference of the level energies. Photon directions are unit vectors.",
 ["inputs"],EV,"No test relates a photon energy to a level scheme or to the fragment's speed.",
 ["libcgmf/src/cgmfEvents.cpp","libcgmf/src/specmc.cpp"],[("Doppler shift","cgmfEvents.cpp/specmc.cpp: photon boost")],API)
p("C08","Every reported quantity is physically meaningful",
 "In every event (and for the fragments of a yields run) all values are finite; energies of neutrons, photons and pre-fission neutrons are positive, all direction vectors have unit length, excitation energies are non-negative, parities are +1 or -1, spins are non-negative and integer or half-integer as the mass number demands, and multiplicities stay within the library's documented maxima.",
 ["inputs"],EV,"Rare samples (extreme Gaussian tails, energies at thresholds) decide; a reference history of a few events does not reach them.",
 ["libcgmf/src/FissionFragments.cpp","libcgmf/src/specmc.cpp","libcgmf/src/cgmfEvents.cpp"],[("sampling loops with rejection","FissionFragments.cpp"),("particle arrays","cgmfEvents.cpp, config-ff.h")],API)
p("C09","Emission times: prompt neutrons, isomer-delayed photons, window honoured",
 "Neutrons carry exactly the time the event was requested at; photons carry that time plus an age that is zero until the cascade leaves a level with a half-life, never decreases along the cascade of a fragment, grows only there and on the scale of that half-life. With a finite positive coincidence window of the request no photon has an age beyond it and the cascade stops where it would; with a window of zero or below every cascade runs to the ground state.",
 ["inputs","histories"],EV+", in any order of requests within a process","Time stamps need half-lives from a level file, which no test supplies; a window is a per-request setting that tests never change within a process.",
 ["libcgmf/src/specmc.cpp","libcgmf/src/cgmfEvents.cpp"],[("time stamps","specmc.cpp: tstamp"),("window","specmc.cpp / cgmfEvents.cpp: set_time_coincidence_window")],API)
p("C10","An event is a function of its request and its random stream",
 "Two requests with the same nuclide, energy, time and window and an identically seeded random stream give identical events (every reported value), whatever was simulated before in the process: other reactions and energies, other windows, yields, de-excitation-only calls, deleted or still live events, and library clean-ups. Different processes agree as well.",
 ["histories","inputs"],"all sequences of library operations before and between the requests","Each test runs one reaction in one fresh process, so state carried from one request to the next is never observed.",
 ["libcgmf/src/cgmfEvents.cpp","libcgmf/src/cgmfEvents_capi.cpp","libcgmf/src/FissionFragments.cpp","libcgmf/src/ripl2levels.cpp"],[("global workspace set-up per event","cgmfEvents.cpp: initialization, cgmAllocateMemory"),("static tables","FissionFragments.cpp: read* functions, file-scope state")],API)
p("C11","Events stay valid and getters total until the event is deleted",
 "A live event reports the same values whenever it is asked, no matter which other events are created or deleted, yields generated, or clean-ups performed in between; several events may be live at once and be deleted in any order; an index outside a particle list (negative or beyond the multiplicity) is answered with -1. No sequence of create, query, delete, yields, clean-up and re-create operations of the library corrupts memory or crashes.",
 ["histories"],"all sequences of create/query/delete/yields/clean-up operations","Tests create one event at a time, in one order, and never clean up and continue.",
 ["libcgmf/src/cgmfEvents.cpp","libcgmf/include/cgmfEvents.h","libcgmf/src/cgmfEvents_capi.cpp"],[("event-owned arrays","cgmfEvents.cpp: allocateMemory, destructors"),("shared workspace","cgmfEvents.cpp: cgmAllocateMemory, cgmDeleteAllocated, cgmf_cleanup"),("bounds-checked getters","cgmfEvents.h")],API+["AddressSanitizer"])
p("C12","The C interface reports the same event as the C++ class",
 "An event generated through the C interface with a given random stream is identical, getter by getter (fragments, neutrons in both frames, photons, ages, pre-fission neutrons, all components), to the event the C++ class generates from the same request and stream; generating again replaces it, and clearing it and generating again is possible in any order and number.",
 ["inputs","histories"],EV+"; all orders of generate and clear","No test calls the C interface getters against the class getters.",
 ["libcgmf/src/cgmfEvents_capi.cpp","libcgmf/include/cgmfEvents_capi.h"],[("thin wrappers over one current event","cgmfEvents_capi.cpp")],["cgmf_get* functions"])
p("C13","A history file is a faithful transcript of the events",
 "The file cgmf.x writes consists, in order, of one header line (ZAID, energy, window) and for every event the light then the heavy fragment: fragment line, momenta line, and the centre-of-mass neutron, laboratory neutron and photon lines (with ages if the window is negative) that are present exactly if the multiplicity is non-zero, then the pre-fission neutron line if there is one. Every number is the library's value of that event, in the documented position, rounded to the printed digits.",
 ["inputs"],EV+" and number of events","Tests compare files with references of the same writer; they do not relate file and library, nor sample every combination of empty and non-empty lists and windows.",
 ["utils/cgmf/cgmf.cpp"],[("writer","cgmf.cpp: printEventToFile")],["history file"])
p("C14","A cgmf.x run is the numbered sequence of events it was asked for",
 "cgmf.x -n N -s S writes exactly N events, the k-th being the event of the random stream seeded S+k-1, independently of N and of the other events, so that runs with consecutive ranges concatenate to the longer run; the -i, -e, -t, -f and -s options take effect as given, in any order, the last one of a repeated option counting, and their defaults (window 1e-8, first event 1, file names) apply otherwise; a negative window other than -1 is refused. The summary printed on stdout gives the averages over exactly those events.",
 ["inputs","configurations"],"all N, S, option combinations and orders","Tests run one command line per reaction and compare the first file; partitions of a run, the summary and option orders are not checked.",
 ["utils/cgmf/cgmf.cpp","libcgmf/include/rngcgm.h"],[("per-event seeding","cgmf.cpp: main"),("options","cgmf.cpp: readUserInput"),("summary","cgmf.cpp: recordEvent, printSummaryEvents")],["history file","stdout","exit status"])
p("C15","An MPI run computes the same events, partitioned by rank",
 "In an MPI build with R ranks, rank r writes to its own file (suffix .r) exactly the N events numbered S+rN ... S+rN+N-1, only rank 0 writes the header, and together the files hold the events of a serial run of R*N events. The summary, printed by rank 0 only, gives the averages over all R*N events.",
 ["configurations","schedules"],"all numbers of ranks, events per rank and rank schedules","MPI is off in the test build.",
 ["utils/cgmf/cgmf.cpp"],[("rank offset of the seed, file suffix","cgmf.cpp: main, readUserInput"),("reductions","cgmf.cpp: printSummaryEvents")],["history files","stdout"])
p("C16","Yields mode writes consistent scission fragments",
 "With a negative event number -N (or the yields class), exactly 2N lines are written, a light then its complementary heavy fragment, each with Z, A, kinetic energy, excitation energy, spin, parity and momentum in this order; every pair is a sample of its own and obeys the nucleon, energy and momentum balances of scission. The file depends only on the request and the random stream.",
 ["inputs"],"all supported reactions, energies, N and random streams","One reference yields file is compared by the tests.",
 ["libcgmf/src/cgmfEvents.cpp","libcgmf/src/FissionFragments.cpp","utils/cgmf/cgmf.cpp"],[("yields writer","cgmfEvents.cpp: cgmfYields"),("pair generation","FissionFragments.cpp: generateInitialFissionFragmentHistories")],["yields file"])
p("C17","CGMFtk reads back exactly what was written",
 "Reading a history file with CGMFtk gives, for any mix of events, exactly the fragments and particles of the file: fragment-wise (2 entries per event, light and heavy alternating) and event-wise values, particle lists in file order attached to the right fragment and frame, photon ages when the file has them, pre-fission neutrons attached to the event, and the first n events only if n is given.",
 ["inputs"],"all well-formed history files: any multiplicities including none, all equal, many; with and without ages and pre-fission neutrons; any number of events","The toolkit tests read one sample file.",
 ["tools/CGMFtk/histories.py"],[("line-by-line parser","histories.py: Histories._readHistories...")],["Histories accessors"])
p("C18","CGMFtk observables are what their definitions say",
 "Multiplicities and their distributions, mean energies, averages over mass, TKE or multiplicity, spectra and their thresholds, time-window multiplicities, angle lists and correlations computed by CGMFtk equal the values obtained by applying their definitions to the events of the file, for every history file and every threshold or window; in particular totals include pre-fission neutrons where documented, thresholds select particles above them, and every event or fragment is counted exactly once.",
 ["inputs"],"all history files, thresholds and windows","The toolkit tests evaluate defaults on one sample file.",
 ["tools/CGMFtk/histories.py"],[("observables","histories.py")],["Histories methods"])
p("C19","CGMFtk yields reader reproduces the yields file",
 "Reading a yields file with CGMFtk gives for every line the fragment's charge, mass, neutron number, kinetic and excitation energies, spin, parity and momentum in file order, and its distributions and averages count every fragment exactly once.",
 ["inputs"],"all well-formed yields files","One sample file is read by the tests.",
 ["tools/CGMFtk/yields.py"],[("reader","yields.py")],["Yields accessors"])
p("C20","The data directory is resolved in the documented order",
 "cgmf.x takes its data from the directory given with -d, else from the CGMFDATA environment variable, else from the installed or build data directory; a trailing slash makes no difference; a missing data file ends the run with a non-zero status instead of producing events.",
 ["configurations"],"all combinations of option, environment and directory contents","Tests set one of them.",
 ["libcgmf/src/cgmfEvents.cpp","utils/cgmf/cgmf.cpp","libcgmf/src/ripl2levels.cpp"],[("resolution","cgmf.cpp: readUserInput; cgmfEvents.cpp: setdatapath")],["history file","exit status"])
p("C21","Discrete decays follow the level file's branching, conversion and half-lives",
 "Over many events a discrete level decays to its final levels with the frequencies of its branching ratios, by internal conversion with the fraction icc/(1+icc) of a transition, and after exponentially distributed times with its half-life; levels the file gives no decay for decay by the documented rule (E1 candidates equally, else nearest spin, else ground state).",
 ["inputs"],"all level files","No level file is shipped and no test looks at discrete decay frequencies.",
 ["libcgmf/src/specmc.cpp","libcgmf/src/ripl2levels.cpp"],[("branch sampling","specmc.cpp: discrete cascade"),("normalisation and invented transitions","ripl2levels.cpp: riplFixTransition, riplNormalizeBranch")],API)
p("C22","Directions and parities are distributed as documented",
 "Neutrons in the frame of the emitting fragment and photons have isotropic directions, whatever the fragment, its mass, the particle's energy and the order of emission, and independently of each other; spontaneous-fission fragments are isotropic; in neutron-induced fission the light fragment has the density 1+(b-1)cos^2 to the beam in the rest frame of the fissioning nucleus, b being the entry of anisotropy.dat for the target at the tabulated energy nearest to the incident energy, and a uniform azimuth; the parities of the two fragments are + and - with equal chance, independently.",
 ["inputs"],"all supported reactions, energies and random streams","Tests fix a seed; a distribution is never examined.",
 ["libcgmf/src/kinematics.cpp","libcgmf/src/FissionFragments.cpp"],[("direction sampling","kinematics.cpp: boost, neutron_emission_boost, boost_pfn"),("anisotropy coefficient","FissionFragments.cpp: computeFragmentAngularDistribution, readAnisotropy"),("parities","FissionFragments.cpp: computeFragmentInitialConditions")],API)
p("C23","De-excitation-only calls report a cascade of the nucleus",
 "cgm(ZAID, Ex) reports at most 30 photon and 30 neutron energies, each the middle of a 50 keV bin, strictly increasing, such that some cascade of the nucleus from Ex to its ground state emits in exactly these bins: neutron energies, separation energies and photon energies exhaust Ex; from below the highest level of the level file the photons are a chain of its transitions from the level nearest to Ex. The answer is a function of the request and the random stream, and the call does not influence events generated before or after it.",
 ["inputs","histories"],"all nuclides, excitation energies, random streams and interleavings with fission events","Not tested at all.",
 ["libcgmf/src/cgmfEvents.cpp","libcgmf/src/cgmfEvents_capi.cpp","libcgmf/src/specmc.cpp","libcgmf/src/output.cpp"],[("cgm entry","cgmfEvents.cpp: cgmEvent constructor; cgmfEvents_capi.cpp: cgm"),("lines","output.cpp: cgmGetSpectra")],["cgm() output arrays"])
p("C24","Physics models agree with evaluated data",
 "Average multiplicities, spectra and yields computed from many events agree with the evaluated nuclear data the models were fitted to.",
 ["inputs"],"all reactions and energies","Needs evaluated data and large statistics; no test has either.",
 ["libcgmf/src/omcalc.cpp","libcgmf/src/levden.cpp","libcgmf/src/Yields.cpp","data/"],[("numerical physics models","libcgmf/src")])
p("C25","The number of pre-fission neutrons follows the multi-chance fission table",
 "In fission events induced by a neutron of a given energy, the numbers of pre-fission neutrons 0, 1, 2, .. occur with the probabilities of multichancefission.dat for the target, interpolated linearly in the incident energy; a chance whose nucleus could not reach its tabulated fission barrier counts as the next lower one that can.",
 ["inputs"],"all neutron-induced reactions, incident energies and random streams","Tests compare a few seeded events at a few energies.",
 ["libcgmf/src/FissionFragments.cpp","data/multichancefission.dat"],[("table","FissionFragments.cpp: readMultichanceFissionData"),("sampling","FissionFragments.cpp: getNumberPrefissionNeutrons")],API)
p("C26","The excitation energy is shared at the tabulated temperature ratio",
 "At every scission, in events and in yields, the total excitation energy is divided between the light and the heavy fragment so that, with U = a T^2 for both, the ratio T_L/T_H is the value of rta.dat for the target and the heavy mass (1 outside the tabulated masses; 1.2 for the targets U-234, Pu-238 and Pu-244, which have no table). a is the level density parameter of the fragment at its own excitation energy, interpolated linearly in ldp.dat. The division is the iterate, started from equal shares, at which the light fragment's a changes by no more than 0.01.",
 ["inputs"],"every supported reaction, incident energy, random stream and fragment pair","Tests compare a few seeded pairs of a few reactions; nothing relates the shares to the tables.",
 ["libcgmf/src/FissionFragments.cpp","data/ldp.dat","data/rta.dat"],[("energy sorting","FissionFragments.cpp: computeFragmentExcitationEnergy"),("tables","FissionFragments.cpp: readRTAh, readLevelDensityParameterTables")],API+["yields file"])
p("C27","Fragment spins follow the documented distribution",
 "The spins of the two fragments are drawn independently of each other from P(J) proportional to (2J+1) exp[-J(J+1)/(2 B^2)], integer for even and half-integer for odd masses, with B^2 = alpha * I * T / hbar^2: I the rigid-body moment of inertia of the fragment with its ground-state deformation (deformations.dat, 0.2 if it is not listed), T its temperature at its excitation energy (temperatures.dat, linear in between), alpha = alpha_0 + alpha_1 E of spinscalingmodel.dat for the fissioning nucleus (1.5 + 0.071 E, 1.3 for spontaneous fission, if it is not listed), E the incident energy that excites it as much.",
 ["inputs"],"every supported reaction, incident energy, random stream and fragment pair","A distribution: single seeded events cannot settle it, and the tests do not look at spins.",
 ["libcgmf/src/FissionFragments.cpp","data/spinscalingmodel.dat","data/temperatures.dat","data/deformations.dat"],[("spin sampling","FissionFragments.cpp: getInitialSpin, spinParameter"),("scaling","FissionFragments.cpp: readSpinScaling / setSpinStrength")],API+["yields file"])
p("C28","Fragment masses follow the yields of yamodel.dat",
 "The masses of the fragments follow Y(A) of yamodel.dat: five Gaussians (two pairs mirrored about half the mass, one symmetric) whose weights, means and widths depend on the energy as its header says, for the fissioning nucleus, i.e. after the pre-fission neutrons and at the incident energy that would excite it as much; a nucleus that is not listed has the parameters of the first one, shifted in mass. Probabilities hold to one part in ten thousand.",
 ["inputs"],"every supported reaction, incident energy, number of pre-fission neutrons and random stream","A distribution: the tests compare a few seeded pairs.",
 ["libcgmf/src/Yields.cpp","libcgmf/src/FissionFragments.cpp","data/yamodel.dat"],[("parameters","Yields.cpp: setParameters, LoadYAParams, setYieldParameters"),("sampling","FissionFragments.cpp: sampleFissionFragments")],API+["yields file"])
p("C29","Total kinetic energies follow tkemodel.dat",
 "For given masses the total kinetic energy of the fragments is normally distributed, cut off at the energy that is available, with the width of tkemodel.dat and a mean that has the shape of tkemodel.dat as a function of the heavy mass and is scaled so that the average over all masses is the tabulated mean for the incident energy (piecewise linear in it); for a nucleus that is not listed, the shape and widths of the first one and the mean of the Viola systematics less 0.25 E.",
 ["inputs"],"every supported reaction, incident energy, number of pre-fission neutrons and random stream","A distribution: the tests compare a few seeded pairs.",
 ["libcgmf/src/Yields.cpp","libcgmf/src/FissionFragments.cpp","data/tkemodel.dat"],[("parameters","Yields.cpp: setTKEParameters, LoadTKEParams, Viola"),("sampling","Yields.cpp: sampleTKE")],API+["yields file"])
p("C30","Fragment charges follow Wahl's Zp model",
 "For given masses the charge of a fragment follows Wahl's Zp model (LA-13928) for the compound nucleus and its excitation energy: a Gaussian about the most probable charge, integrated over unit intervals, with the even-odd factors F_Z and F_N; displacement, width and factors in the mass regions as tabulated by Wahl, interpolated between 8 and 20 MeV. The other fragment has the remaining charge; either of the two may be the one that is drawn.",
 ["inputs"],"every supported reaction, incident energy, number of pre-fission neutrons and random stream","A distribution: the tests compare a few seeded pairs.",
 ["libcgmf/src/FissionFragments.cpp"],[("Zp model","FissionFragments.cpp: ZDistribution::ComputeZDistribution, buildYZA"),("sampling","FissionFragments.cpp: sampleFissionFragments")],API+["yields file"])
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
