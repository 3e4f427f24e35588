From 2c045a8461b077c90c59f9be96200fb2615df782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:39 +0000
Subject: [PATCH 01/29] fix: stay inside the level table when a nucleus is
 absent from the database

---
 libcgmf/src/ripl2levels.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index d8c8b95..963a24e 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -224,7 +224,7 @@ void getDiscreteLevels (Nucleus *ncl, int nemit) {
 		zaid = 1000*ncl[k].za.getZ()+ncl[k].za.getA();
 		found=false;
 		id=-1;
-		while (!found && id<MAX_NUCLEI) {
+		while (!found && id<MAX_NUCLEI-1) {
 			id++;
 			if (zaidIndex[id]==zaid) found=true;
 		}
@@ -275,9 +275,8 @@ void getRiplDiscreteLevels (Nucleus *ncl, int nemit) {
 	}
 
 	for (int k=0; k<=nemit; k++) {
-		found = false;
-		if (zaidIndex[id-k]==zaid-k) found = true;
-		ncl[k].ndisc = numberLevels[id-k];
+		found = (id-k>=0 && zaidIndex[id-k]==zaid-k);
+		ncl[k].ndisc = found ? numberLevels[id-k] : 0;
 		for (int i=0; i<ncl[k].ndisc; i++) {
 			ncl[k].lev[i] = allLevels[id-k][i];
 		}
-- 
2.43.0


From ed66117fd817b959d2a4ace6031a9f7ac4880ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:38 +0000
Subject: [PATCH 02/29] fix: cgmf_clean() must forget the event it deletes

---
 libcgmf/src/cgmfEvents_capi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents_capi.cpp b/libcgmf/src/cgmfEvents_capi.cpp
index e9de84f..09ded3c 100644
--- a/libcgmf/src/cgmfEvents_capi.cpp
+++ b/libcgmf/src/cgmfEvents_capi.cpp
@@ -164,6 +164,7 @@ double cgmf_getgtme(int i) {
 */
 void cgmf_clean() {
   if (cgmf_fevent != 0) delete cgmf_fevent;
+  cgmf_fevent = 0;
 //  riplDiscreteLevelsCleanup();
 }
 
-- 
2.43.0


From b1bd99d44836d6f801855edb3367ee94fb07c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:38 +0000
Subject: [PATCH 03/29] fix: several live events must not free the shared
 workspace twice

---
 libcgmf/src/terminate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcgmf/src/terminate.cpp b/libcgmf/src/terminate.cpp
index 1290704..6babfd6 100644
--- a/libcgmf/src/terminate.cpp
+++ b/libcgmf/src/terminate.cpp
@@ -57,8 +57,11 @@ int cgmTerminateCode(std::string msg, double x)
 /**********************************************************/
 /*      Free Allocated Memory                             */
 /**********************************************************/
+static int workspaceUsers = 0; // number of live objects sharing the workspace below
+
 void cgmDeleteAllocated()
 {
+	if (workspaceUsers == 0 || --workspaceUsers > 0) return;
 	delete [] ncl;
 	for(int i=0 ; i<SPECTRA_OUTPUT ; i++) delete [] spc[i];
 }
@@ -69,6 +72,7 @@ void cgmDeleteAllocated()
 /**********************************************************/
 void cgmAllocateMemory()
 {
+	if (workspaceUsers++ > 0) return;
 	try{
 		/*** compound nucleus */
 		ncl = new Nucleus [MAX_COMPOUND];
-- 
2.43.0


From 2dbef20f5b9efe15c47eab8c4b2aac93ed913a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:39 +0000
Subject: [PATCH 04/29] fix: honour the time coincidence window of every event,
 not only of the first

---
 libcgmf/src/cgmfEvents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8dfff50..c527a42 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -388,8 +388,8 @@ cgmfEvent::cgmfEvent  (int isotope, double eng, double time, double timew) : cgm
   if(firstcalc) {
     initialization();
     firstcalc = false;
-    if(timew>0.0)set_time_coincidence_window(timew);
   }
+  set_time_coincidence_window(timew>0.0 ? timew : -1.0);
  	cgmAllocateMemory();
 //	allocateMemory();
 
-- 
2.43.0


From 2ae8484bc30699562784420d1300b8edafe37557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:39 +0000
Subject: [PATCH 05/29] fix: refuse unsupported reactions in yields mode,
 negative ZAIDs and NaN energies

---
 libcgmf/include/cgmfEvents.h | 3 ++-
 libcgmf/src/cgmfEvents.cpp   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/libcgmf/include/cgmfEvents.h b/libcgmf/include/cgmfEvents.h
index 2138d13..728acd1 100644
--- a/libcgmf/include/cgmfEvents.h
+++ b/libcgmf/include/cgmfEvents.h
@@ -235,10 +235,11 @@ protected:
 
 	void allocateMemory();
 
+	void checkInput (int, double);
+
 private:
 	
 	void initialization ();
-	void checkInput (int, double);
 
 };
 
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index c527a42..5d0c4c4 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -532,6 +532,8 @@ cgmfEvent::~cgmfEvent () {
  *****************************************************************/
 cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename) : cgmfEvent() {
 	
+	checkInput (isotope, eng);
+
 	fissionFragmentType *lf, *hf;
 	FissionFragments *ff;
 	
@@ -579,7 +581,7 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 */
 void cgmfEvent::checkInput (int isotope, double einc) {
 
-  if (einc==0.0) isotope=-abs(isotope); // to ensure negative value
+  if (einc==0.0) isotope=-isotope; // spontaneous fission
 
   int allowedIsotopes[] = {-94238,-94240,-94242,-94244,-98252,-98254,92233,92234,92235,92238,93237,94239,94241};
   int numIsotopes = sizeof(allowedIsotopes)/sizeof(int);
@@ -589,7 +591,7 @@ void cgmfEvent::checkInput (int isotope, double einc) {
 
   if (not found) { cerr << "ERROR: Isotope not handled by CGMF or wrong incident energy\n"; exit(-1); }
   if (isotope<0 and einc!=0.0) { cerr << "ERROR: Only spontaneous fission is handled for this isotope\n"; exit(-1); }
-  if (isotope>0 and (einc>20.0 or einc<=0.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
+  if (isotope>0 and not (einc>0.0 and einc<=20.0)) { cerr << "ERROR: Incident neutron energy must be greater than 0 MeV and less than or equal to 20 MeV\n"; exit (-1); }
 
   return;
 
-- 
2.43.0


From 3968d414b4bbcfea494891c17c48cff0fa21d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:39 +0000
Subject: [PATCH 06/29] fix: make cgmfYields destructible

---
 libcgmf/src/cgmfEvents.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 5d0c4c4..8d10792 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -358,6 +358,9 @@ int cgmEvent::cgmCheckRange(int z, int a, double e)
 
 
 cgmfEvent::cgmfEvent () {
+  neutronNu = 0;
+  photonNu  = 0;
+  preFissionNeutronNu = 0;
   initialization();
   cgmAllocateMemory();
   return;
@@ -571,10 +574,18 @@ cgmfYields::cgmfYields (int isotope, double eng, int nevents, string outfilename
 
         }
 	of.close();
+
+	delete [] lf;
+	delete [] hf;
+	delete ff;
 	
 	return;
 }
 
+cgmfYields::~cgmfYields () {
+  return;
+}
+
 
 /*! 
 
-- 
2.43.0


From 2cf9f6caf0a0c6cdaeca2a085ff3ce44ca7a5aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:29 +0000
Subject: [PATCH 07/29] fix: allow events after cgmf_cleanup(), and a second
 cgmf_cleanup()

---
 libcgmf/src/FissionFragments.cpp | 1 +
 libcgmf/src/cgmfEvents.cpp       | 1 +
 libcgmf/src/ripl2levels.cpp      | 5 +++++
 3 files changed, 7 insertions(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index c4a249f..1af1133 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -2006,6 +2006,7 @@ void readRTA (void) {
 void cleanupRTA (void) {
 
     delete [] RTAdata;
+    RTAdata = NULL;
 
     return;
 }
diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 8d10792..627d861 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -660,5 +660,6 @@ void cgmf_cleanup(void) {
   riplDiscreteLevelsCleanup();
   cleanupRTA();
   specMCcleanup();
+  firstcalc = true; // a later event has to read the data again
 }
 
diff --git a/libcgmf/src/ripl2levels.cpp b/libcgmf/src/ripl2levels.cpp
index 963a24e..027fb53 100644
--- a/libcgmf/src/ripl2levels.cpp
+++ b/libcgmf/src/ripl2levels.cpp
@@ -554,6 +554,11 @@ void riplDiscreteLevelsCleanup()
 	delete [] zaidIndex;
 	delete [] numberLevels;
 
+	allLevels    = NULL;
+	zaidIndex    = NULL;
+	numberLevels = NULL;
+	NUM_NUCLEI   = 0;
+
 }
 
 #ifdef DEVUTIL
-- 
2.43.0


From 8901e341a83757408f84aa494f0df2904b35e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:29 +0000
Subject: [PATCH 08/29] fix: check the particle multiplicity before writing the
 particle arrays

---
 libcgmf/src/specmc.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index d62b498..f7613a7 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -67,7 +67,7 @@ void set_time_coincidence_window(double timew){
   time_coincidence_window=timew;
 }
 
-double gammaTimeStamp [ MAX_NUMBER_GAMMAS ];
+double gammaTimeStamp [ MAX_CASCADE ];
 
 /*!
  *
@@ -933,8 +933,10 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
     mc_curr = hs[i].getMCPoint();
     mc_next = hs[i+1].getMCPoint();
     if (index==1) { // neutrons
+      if (neutronMultiplicity==MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
       cmNeutronEnergies[neutronMultiplicity++] = hs[i].getEnergy();
     } else if (index==0) { // gammas (no IC)
+      if (gammaMultiplicity==MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
       if (mc_curr.ifDiscrete()) {
 	timeStamp[gammaMultiplicity] = gammaTimeStamp[i]; // discrete-to-discrete
       }
@@ -947,9 +949,6 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	fe->nu  = neutronMultiplicity;
 	fe->nug = gammaMultiplicity;
 	
-	if (neutronMultiplicity>MAX_NUMBER_NEUTRONS) cgmTerminateCode ("[specmc] Too large neutron multiplicity!");
-	if (gammaMultiplicity>MAX_NUMBER_GAMMAS) cgmTerminateCode ("[specmc] Too large gamma multiplicity");
-	
 	double Vn[MAX_NUMBER_NEUTRONS][3];
 	double Vg[MAX_NUMBER_GAMMAS][3];
 	double cmVn[MAX_NUMBER_NEUTRONS][3];
-- 
2.43.0


From 2389ecae4f1651f4b2081dfd28492699e441e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:29 +0000
Subject: [PATCH 09/29] fix: no crash of cgmf.x without events or with an
 output file that cannot be opened

---
 utils/cgmf/cgmf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/cgmf/cgmf.cpp b/utils/cgmf/cgmf.cpp
index ff9b764..6c3a65a 100644
--- a/utils/cgmf/cgmf.cpp
+++ b/utils/cgmf/cgmf.cpp
@@ -86,6 +86,7 @@ int main(int argc, char *argv[]) {
     }
   } else {
     FILE *fp = fopen(&outfilename[0],"w");
+    if(fp==NULL) { cerr << "Cannot open output file " << outfilename << endl; exit(-1); }
     if(ip==0) fprintf(fp, "# %5i %g %g\n", ZAIDt, incidentEnergy,timeCoincidenceWindow);
     for (int i=0; i<nevents; i++) {
       rng.set_seed(i+ip*nevents+startingEvent);
@@ -97,7 +98,7 @@ int main(int argc, char *argv[]) {
       printEventToFile (fp, event, timeCoincidenceWindow);
     }
     fclose(fp);
-    printSummaryEvents (event);
+    if (event != 0) printSummaryEvents (event);
   }
 
   cgmf_cleanup();
-- 
2.43.0


From 0f7a2f61cc10bef401691a96ee3ae20f18487748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:51 +0000
Subject: [PATCH 10/29] fix: room for as many internal conversions as a cascade
 can have

---
 libcgmf/src/specmc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index f7613a7..b827bf8 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -909,7 +909,7 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 	double cmGammaEnergies    [MAX_NUMBER_GAMMAS];
 	double gammaEnergies      [MAX_NUMBER_GAMMAS];
 	double timeStamp          [MAX_NUMBER_GAMMAS];
-	double icEnergies		      [MAX_NUMBER_PARTICLES];
+	double icEnergies		      [MAX_CASCADE];
 	
 	int neutronMultiplicity=0;
 	int gammaMultiplicity=0;
-- 
2.43.0


From d4da89338086bca67c32c654063e642bb21d58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:51 +0000
Subject: [PATCH 11/29] fix: set the fragment direction cosines

---
 libcgmf/src/specmc.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index b827bf8..304d3c0 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -962,6 +962,16 @@ void recordEmittedParticlesFission (fissionEventType *fe) {
 				 gammaMultiplicity, cmGammaEnergies, gammaEnergies, cmVg, Vg);
 	for (int i=0; i<3; i++) fe->postFragmentMomentum[i] = fragmentMomentum[i];
 
+  // direction of the fragment before neutron emission
+  double preMomentum = 0.0;
+  for (int i=0; i<3; i++) preMomentum += fe->preFragmentMomentum[i]*fe->preFragmentMomentum[i];
+  preMomentum = sqrt(preMomentum);
+  if (preMomentum>0.0) {
+    fe->fragmentDircosu = fe->preFragmentMomentum[0]/preMomentum;
+    fe->fragmentDircosv = fe->preFragmentMomentum[1]/preMomentum;
+    fe->fragmentDircosw = fe->preFragmentMomentum[2]/preMomentum;
+  }
+
   // post-neutron emission fragment kinetic energy
   double mass = A*amuMeV+getMassExcess(Z*1000+A);
   for (int i=0; i<3; i++) fe->KEpost += ( fe->postFragmentMomentum[i]*fe->postFragmentMomentum[i] );
-- 
2.43.0


From e5477cb224bafd75d579e0e314011f4def1f9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 12/29] fix: no pre-fission neutron that would leave the
 daughter below its fission barrier

---
 libcgmf/src/FissionFragments.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 1af1133..b3fd406 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -2242,6 +2242,8 @@ void FissionFragments::buildYields(void) {
     	do {
 	   n_pfn = getNumberPrefissionNeutrons(); // sample the number of pre-fission neutrons
     	} while (n_pfn<0);
+    	// a neutron can be emitted only if its daughter is left above the fission barrier
+    	while (n_pfn>0 && ncl[n_pfn].excitation[0]<barrier[n_pfn]) n_pfn--;
     	if (n_pfn==0) preeq_flag=false; // catch for not sampling any pre-fission neutrons
 
 	if (n_pfn > 0){
-- 
2.43.0


From d3687a71d831a62314d50151ce3b7320a0d510b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 13/29] fix: no pre-fission neutron with a negative energy (NaN
 momenta)

---
 libcgmf/src/FissionFragments.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index b3fd406..beea19c 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -5385,6 +5385,7 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
     } while (sp1[kf] < max_prob*rng_cgm());
 
     cmEnergy_pfn[0] = energy_grid1[kf] + 0.5*ENERGY_BIN*(1-2*rng_cgm()); // Continuum-to-continuum energy transfer
+    if (cmEnergy_pfn[0]<=0.) cmEnergy_pfn[0] = 1e-10; // a neutron energy cannot be negative
 
     // if the neutron was pre-equilibrium, construct the CDF for the angular sampling
     double Eexc = ncl[1].excitation[kf];
@@ -5463,6 +5464,7 @@ void FissionFragments::getPrefissionNeutronEnergy(double *excitEnergy){
 	if (kf<0) cout << i << " nemit_now=" << n << " kstart=" << kstart << " kf=" << kf << endl;
 
 	cmEnergy_pfn[i-1] = tc[kf].ecms + 0.5*ENERGY_BIN*(1-2*rng_cgm());
+	if (cmEnergy_pfn[i-1]<=0.) cmEnergy_pfn[i-1] = 1e-10;
 	kstart = kf;
 
     }
-- 
2.43.0


From 9aa1a7c9c2e1b4168740b781c55a54abf57ab599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 14/29] fix: CGMFtk reads histories whose fragments all have
 the same multiplicity

np.asarray(...,dtype=object) of lists of equal length is a 2D array, and the
reader stopped with a ValueError.
---
 tools/CGMFtk/histories.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index a6e64e2..1d1a0c6 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -153,6 +153,13 @@ class Histories:
 		self.KEh = self.KEpre[1::2]
 
 
+	def _listOfLists (self,values):
+		""" Returns a one-dimensional array of lists, also if all lists have the same length """
+		array = np.empty(len(values),dtype=object)
+		for i,x in enumerate(values):
+			array[i] = x
+		return (array)
+
 	def _readHistoryFileFromCGMF (self,filename,nevents):
 		""" Reads CGMF history file (filename) and returns a list of simulations """
 
@@ -362,15 +369,15 @@ class Histories:
 		
 		nevents = int(nfragments/2)
 
-		cmNeutronEnergies=np.asarray(cmNeutronEnergies,dtype=object)
-		labNeutronEnergies=np.asarray(labNeutronEnergies,dtype=object)
-		cmGammaEnergies=np.asarray(cmGammaEnergies,dtype=object)
-		labGammaEnergies=np.asarray(labGammaEnergies,dtype=object)
-		photonAges=np.asarray(photonAges,dtype=object)
-		cmNeutronDircos=np.asarray(cmNeutronDircos,dtype=object)
-		labNeutronDircos=np.asarray(labNeutronDircos,dtype=object)
-		labPreFissionNeutronEnergies=np.asarray(labPreFissionNeutronEnergies,dtype=object)
-		labPreFissionNeutronDircos=np.asarray(labPreFissionNeutronDircos,dtype=object)
+		cmNeutronEnergies=self._listOfLists(cmNeutronEnergies)
+		labNeutronEnergies=self._listOfLists(labNeutronEnergies)
+		cmGammaEnergies=self._listOfLists(cmGammaEnergies)
+		labGammaEnergies=self._listOfLists(labGammaEnergies)
+		photonAges=self._listOfLists(photonAges)
+		cmNeutronDircos=self._listOfLists(cmNeutronDircos)
+		labNeutronDircos=self._listOfLists(labNeutronDircos)
+		labPreFissionNeutronEnergies=self._listOfLists(labPreFissionNeutronEnergies)
+		labPreFissionNeutronDircos=self._listOfLists(labPreFissionNeutronDircos)
 
 		data = np.dstack((A,Z,U,J,P,KEpre,nmult,gmult,cmNeutronEnergies,labNeutronEnergies,cmGammaEnergies, labGammaEnergies,photonAges,preFragmentsX,preFragmentsY,preFragmentsZ,postFragmentsX,postFragmentsY,postFragmentsZ,cmNeutronDircos,labNeutronDircos,prenmult,labPreFissionNeutronEnergies,labPreFissionNeutronDircos,KEpost))
 
-- 
2.43.0


From 1992258c08204449e640f5f9a9751a5a35f38246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 15/29] fix: CGMFtk Pnu(Eth) counts the neutrons of an event
 above the threshold

It added arrays over fragments and over events (ValueError), and counted the
placeholder energy of events without pre-fission neutrons.
---
 tools/CGMFtk/histories.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 1d1a0c6..6f8666d 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -833,9 +833,10 @@ class Histories:
 		if (Eth is not None):
 			Eth = float(Eth)
 			nutot = []
-			#nE = self.nElabLF + self.nElabHF + self.preFissionNeutronElab
-			nE = self.nElab + self.preFissionNeutronElab
-			for x in nE:
+			nE = self.nElabLF + self.nElabHF
+			for i,x in enumerate(nE):
+				if (self.preFissionNu[i]>0):
+					x = x + self.preFissionNeutronElab[i]
 				x = np.array(x)
 				nutot.append(len(x[x>=Eth]))
 			nutot = np.array(nutot)
-- 
2.43.0


From 0a85e67ff082cb315fbff5aafeebbbf99bd5e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 16/29] fix: CGMFtk UTKE() and spinTKE() (NameError)

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 6f8666d..1853fe7 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -982,7 +982,7 @@ class Histories:
 			TKE = self.TKEpre
 		elif (quantity=='UTKE'):
 			q=self.U
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
@@ -990,7 +990,7 @@ class Histories:
 			TKE = np.array(TKE)
 		elif (quantity=='spinTKE'):
 			q=self.J
-			TKE1 = cgmf.TKEpre
+			TKE1 = self.TKEpre
 			TKE = []
 			for x in TKE1:
 				TKE.append(x)
-- 
2.43.0


From 9dbd5fdba1c2427e61097839ede0a08f32de1b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 17/29] fix: CGMFtk nubarg(timeWindow=array) and
 nubargtot(timeWindow=array) (ValueError)

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 1853fe7..9d81306 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -635,7 +635,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
@@ -689,7 +689,7 @@ class Histories:
 		"""
 
 		if (timeWindow is not None):
-			if (timeWindow == True):
+			if (timeWindow is True):
 				times = np.logspace(-9,0,15)
 			else:
 				times = timeWindow
-- 
2.43.0


From d10d7a014071abe19bf9ac1218333553f40cfbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 18/29] fix: CGMFtk nubarg(timeWindow) is per fragment, as
 documented and as nubarg()

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 9d81306..c764075 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -660,7 +660,7 @@ class Histories:
 				mask = np.logical_and(photonAges<=i,photonEnergies>=Eth)
 				nug.append(float(len(photonAges[mask])))
 			nug = np.array(nug)
-			nug = nug/float(self.numberEvents)
+			nug = nug/float(self.numberFragments)
 			return (times,nug)
 
 		else:
-- 
2.43.0


From 9d6246096aa81e0a07279cd85c5c5f11531f00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 19/29] fix: CGMFtk mass averages include the heaviest fragment

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index c764075..9eb3fb4 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -895,7 +895,7 @@ class Histories:
 		spinA -- spin
 		TKEA -- total kinetic energy
 		"""
-		xA = np.arange(np.min(self.A),np.max(self.A))
+		xA = np.arange(np.min(self.A),np.max(self.A)+1)
 		nA = np.size(xA)
 		yA = np.zeros(nA)
 		if (quantity=='nuA'):
-- 
2.43.0


From 9fec85f642f0e08a5dac5ae82c385dee3695d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 20/29] fix: CGMFtk TKE averages include the events with the
 largest TKE

---
 tools/CGMFtk/histories.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 9eb3fb4..bd7e9e2 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -971,7 +971,7 @@ class Histories:
 		UTKE -- excitation energy
 		spinTKE -- spin (J)
 		"""
-		xTKE = np.arange(np.min(self.TKEpre),np.max(self.TKEpre))
+		xTKE = np.arange(np.min(self.TKEpre),np.max(self.TKEpre)+1)
 		nTKE = np.size(xTKE)
 		yTKE = np.zeros(nTKE)
 		if (quantity=='nuTKE'):
@@ -996,8 +996,8 @@ class Histories:
 				TKE.append(x)
 				TKE.append(x)
 			TKE = np.array(TKE)
-		for i in range(nTKE-1):
-			r=q[np.logical_and(TKE>=xTKE[i],TKE<xTKE[i+1])]
+		for i in range(nTKE):
+			r=q[np.logical_and(TKE>=xTKE[i],TKE<xTKE[i]+1)]
 			if (r.size):
 				yTKE[i]=np.mean(r)
 			else:
-- 
2.43.0


From e2a6bfcc84922ee255e318c2c708be7d1e4cc6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 21/29] fix: CGMFtk nnangles() does not pair a neutron with
 itself

---
 tools/CGMFtk/histories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index bd7e9e2..850efd8 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1328,13 +1328,13 @@ class Histories:
 		c = 0
 		for i in range(len(nLF)):
 			for j in range(nLF[i]):
-				for k in range(j,nLF[i]):
+				for k in range(j+1,nLF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosLF.append(tempcos)
 					nncosAll.append(tempcos)
 			c=c+1
 			for j in range(nHF[i]):
-				for k in range(j,nHF[i]):
+				for k in range(j+1,nHF[i]):
 					tempcos = ncos[c][j][0]*ncos[c][k][0]+ncos[c][j][1]*ncos[c][k][1]+ncos[c][j][2]*ncos[c][k][2]
 					nncosHF.append(tempcos)
 					nncosAll.append(tempcos)
-- 
2.43.0


From 99e3c9cf59e9ebb00643b4e035d1617f3c2c3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 22/29] fix: CGMFtk gammaSpec() accepts lists of energy
 resolutions

---
 tools/CGMFtk/histories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 850efd8..4dd10f4 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1370,7 +1370,7 @@ class Histories:
 		eglist = np.array(Egamma)
 		deglist = np.array(dEgamma)
 
-		if np.any(eglist<0.) or np.any(dEgamma<0.):
+		if np.any(eglist<0.) or np.any(deglist<0.):
 			print("Gamma-ray energies and/or resolutions should be positive...")
 			return
 
-- 
2.43.0


From 640da6ef1c53b9796c919a9d6c3c5b2c683130cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 23/29] fix: CGMFtk neutron angles when a kind of fragment
 emitted no neutron (IndexError)

---
 tools/CGMFtk/histories.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/CGMFtk/histories.py b/tools/CGMFtk/histories.py
index 4dd10f4..a19e6b7 100644
--- a/tools/CGMFtk/histories.py
+++ b/tools/CGMFtk/histories.py
@@ -1187,9 +1187,9 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
+		ncosLight = np.array(ncosLight).reshape(-1,3)
+		ncosHeavy = np.array(ncosHeavy).reshape(-1,3)
+		ncosAll = np.array(ncosAll).reshape(-1,3)
 
 		ncosAll = ncosAll[nEAll>=Eth][:,2]
 		ncosLight = ncosLight[nELight>=Eth][:,2]
@@ -1284,12 +1284,12 @@ class Histories:
 		nELight = np.array(nELight)
 		nEHeavy = np.array(nEHeavy)
 		nEAll = np.array(nEAll)
-		ncosLight = np.array(ncosLight)
-		ncosHeavy = np.array(ncosHeavy)
-		ncosAll = np.array(ncosAll)
-		FcosLight = np.array(FcosLight)
-		FcosHeavy = np.array(FcosHeavy)
-		FcosAll = np.array(FcosAll)
+		ncosLight = np.array(ncosLight).reshape(-1,3)
+		ncosHeavy = np.array(ncosHeavy).reshape(-1,3)
+		ncosAll = np.array(ncosAll).reshape(-1,3)
+		FcosLight = np.array(FcosLight).reshape(-1,3)
+		FcosHeavy = np.array(FcosHeavy).reshape(-1,3)
+		FcosAll = np.array(FcosAll).reshape(-1,3)
 
 		nFcosAll = ncosAll[nEAll>=Eth]*FcosAll[nEAll>=Eth]
 		nFcosAll = np.sum(nFcosAll,axis=1)
-- 
2.43.0


From 031b00973420c1851c00dff747da673c3f3ff3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:03 +0000
Subject: [PATCH 24/29] fix: a fragment below its highest level starts from the
 nearest level

statStoreLevelExcite() returns a number of levels, which the Monte Carlo
routines used as a level index: they started one level too high and created
energy. The highest level itself was never considered.
---
 libcgmf/src/popinit.cpp | 4 ++--
 libcgmf/src/specmc.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libcgmf/src/popinit.cpp b/libcgmf/src/popinit.cpp
index 433f5fe..86108ac 100644
--- a/libcgmf/src/popinit.cpp
+++ b/libcgmf/src/popinit.cpp
@@ -215,9 +215,9 @@ int  statStoreLevelExcite(Nucleus *n)
   double d=100.0,x;
   int k=0;
 
-  if( (n->ndisc == 1) && (n->ncont == 0) ) return(k);
+  if( (n->ndisc == 1) && (n->ncont == 0) ) return(k+1);
 
-  for(int i=0 ; i<n->ndisc-1 ; i++){
+  for(int i=0 ; i<n->ndisc ; i++){
     x = fabs(n->max_energy - n->lev[i].energy);
     if(d>x){
       k = i;
diff --git a/libcgmf/src/specmc.cpp b/libcgmf/src/specmc.cpp
index 304d3c0..d5db40e 100644
--- a/libcgmf/src/specmc.cpp
+++ b/libcgmf/src/specmc.cpp
@@ -155,7 +155,7 @@ void specMCMainFission(fissionEventType *fe)
 		/*** find nearest discrete level for given Ex */
 		int nstart = statStoreLevelExcite(&ncl[0]);
   	np = 0;
-		int final_state = mcGammaCascade(0,nstart,spc);
+		int final_state = mcGammaCascade(0,nstart-1,spc);
 		/*** insert final state */
 		int c = 0;
 		MCPoint mcurr;
@@ -268,7 +268,7 @@ void specMCMain(double initJ, int initP, double targE, double spinf, unsigned lo
 
     for(unsigned long t=0 ; t<nsim ; t++){
       np = 0;
-      mcGammaCascade(0,nstart,spc);
+      mcGammaCascade(0,nstart-1,spc);
       if(ctl.print_history) mcWriteHistory();
       recordEmittedParticles();
     }
-- 
2.43.0


From c152e91fdd65ad78aa6b9745afbf336750ab03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:07 +0000
Subject: [PATCH 25/29] fix: a de-excitation-only call does not inherit the
 time window of an earlier event

---
 libcgmf/src/cgmfEvents.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/cgmfEvents.cpp b/libcgmf/src/cgmfEvents.cpp
index 627d861..9fe764c 100644
--- a/libcgmf/src/cgmfEvents.cpp
+++ b/libcgmf/src/cgmfEvents.cpp
@@ -148,6 +148,7 @@ cgmEvent::cgmEvent (int isotope, double eng, double time) {
     initialization(o);
     firstcalc = false;
   }
+  set_time_coincidence_window(-1.0); // not the one of an earlier fission event
   cgmAllocateMemory();
 
   //---------------------------------------
-- 
2.43.0


From 5aa94a8809afd8813b5e924ffcfc1ad06de24709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:35 +0000
Subject: [PATCH 26/29] fix: stop when the anisotropy or preequilibrium
 scattering data file is missing

readAnisotropy used uninitialised energies (crash) and readPreEqAngularDistributionParameters
looped for ever on a stream that was never opened; the other readers terminate with a message.
---
 libcgmf/src/FissionFragments.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index beea19c..26528d6 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4680,6 +4680,7 @@ void readAnisotropy (void) {
       fp.open(&str[0]);
    }
 
+   if (!fp) cgmTerminateCode("anisotropy data file not found");
 
    while(getline(fp,line)){
       if(line[0] != '#') break;
@@ -4727,6 +4728,8 @@ void readPreEqAngularDistributionParameters (void) {
     str = datadir + str;
     fp.open(&str[0]);
   }
+
+  if (!fp) cgmTerminateCode("preequilibrium scattering data file not found");
  
   i=0;
   j=0;
-- 
2.43.0


From 05b257f8636375acab2de5973200b8b28e7d8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:35 +0000
Subject: [PATCH 27/29] fix: report a missing yields or TKE model with a
 non-zero exit status

---
 libcgmf/src/Yields.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcgmf/src/Yields.cpp b/libcgmf/src/Yields.cpp
index fc3d91c..d5eed05 100644
--- a/libcgmf/src/Yields.cpp
+++ b/libcgmf/src/Yields.cpp
@@ -129,7 +129,7 @@ void Yields::setYieldParameters(void) {
     GaussData += MASSYIELDFILE; // 3-Gaussian parameterizations
     ifstream gaussfit(GaussData.c_str(),ios::in);
     if (!gaussfit.is_open()) {
-    	cerr << "The file " << GaussData << " was not found" << endl; exit(0);
+    	cerr << "The file " << GaussData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
@@ -173,7 +173,7 @@ void Yields::setYieldParameters(void) {
             cerr << "(n,f) ";
         }
         cerr << id_cn0 << endl;
-        exit(0);
+        exit(-1);
     }
     gaussfit.close();
     return;
@@ -268,7 +268,7 @@ void Yields::setTKEParameters(void) {
     TKEData += TKEYIELDFILE; // List of <TKE>(En), <TKE>(Ah), and s_TKE(Ah) parameterizations
     ifstream tkefit(TKEData.c_str(),ios::in);
     if (!tkefit.is_open()) {
-    	cerr << "The file " << TKEData << " was not found" << endl; exit(0);
+    	cerr << "The file " << TKEData << " was not found" << endl; exit(-1);
     }
 
     // Initialize the arrays
-- 
2.43.0


From faf95e237d6cb9d583e375aa808556b08e1e8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:37 +0000
Subject: [PATCH 28/29] fix: anisotropy coefficients apply at every incident
 energy, not only at multiples of 0.5 MeV

---
 libcgmf/src/FissionFragments.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcgmf/src/FissionFragments.cpp b/libcgmf/src/FissionFragments.cpp
index 26528d6..c85bb59 100644
--- a/libcgmf/src/FissionFragments.cpp
+++ b/libcgmf/src/FissionFragments.cpp
@@ -4794,7 +4794,7 @@ void FissionFragments::computeFragmentAngularDistribution (void) {
       for (int i=0;i<MAX_ZAIDc;i++){
          if (anisotropy[i+1][0]==ZAIDc-1){
             for (int j=1;j<=NUM_EGRID;j++){
-               if (roundf(incidentEnergy0*10)/10 == anisotropy[0][j]) {
+               if (fabs(round(incidentEnergy0*10)/10 - anisotropy[0][j]) < 1e-6) {
                   anisotropyCoefficient = anisotropy[i+1][j];
                   break;
                }
-- 
2.43.0


From 5701b33aff23b48a9566205b3fa3a9ce19734982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:54 +0000
Subject: [PATCH 29/29] fix: the nucleus is one neutron lighter after a
 pre-equilibrium neutron too

---
 libcgmf/src/kinematics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcgmf/src/kinematics.cpp b/libcgmf/src/kinematics.cpp
index 6502a0f..0c7217e 100644
--- a/libcgmf/src/kinematics.cpp
+++ b/libcgmf/src/kinematics.cpp
@@ -333,6 +333,7 @@ void boost_pfn (int Z_c, int A_c,double En,double TKE,int A_l,int Z_l,int A_h,in
 					      neutronVelocities[0], 
 					      cmNeutronVelocities[0],
 					      true,Pcostheta,Ppreeq);
+    a_c--; // neutron emission
     n0=1;
   }      
     
-- 
2.43.0

