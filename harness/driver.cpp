// Driver that replays scripted operation sequences on the real CGMF library and
// records, after every operation, the full observable state (all public getters).
//
//   driver SCRIPT OUT.ndjson
//
// Script lines (blank separated):
//   data PATH            setdatapath(PATH)      ("-" = empty string)
//   seed S               fresh generator seeded with S (set_rng)
//   useed S              the generator cgmf.x uses, seeded with S
//   cseed S              the same through the C API (setrngdptr)
//   ev SLOT ZA E T TW    new cgmfEvent in SLOT (deletes a previous one first) and record it
//   evd SLOT ZA E T      the same with the default coincidence window
//   show SLOT            record the getters of SLOT again
//   oor SLOT             record out-of-range getter results
//   free SLOT            delete SLOT
//   cev ZA E T TW        C API: cgmf_genfissevent, record through the C getters
//   cshow                C API: record again
//   coor                 C API: out-of-range getter results
//   cclean               C API: cgmf_clean
//   yld ZA E N FILE      cgmfYields(...), deleted at once
//   gate HOW E N LO HI   ask (in children) for every target LO..HI; record those not refused
//   cgm ZA EX            C API: cgm(...)
//   cleanup              cgmf_cleanup()
// Only the public API is used.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <unistd.h>
#include <sys/wait.h>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include "cgmfEvents.h"
#include "cgmfEvents_capi.h"
#include "rngcgm.h"

static FILE *out;
typedef cgmfEvent Probe;

struct Rng {
  std::shared_ptr<std::mt19937> g;
  std::uniform_real_distribution<double> d;
  explicit Rng(int s) : g(new std::mt19937(s)) {}
  double operator()() { return d(*g); }
};

static void num(const char *k, double v, bool comma = true) {
  if (v != v) fprintf(out, "\"%s\":\"nan\"%s", k, comma ? "," : "");
  else if (v - v != 0) fprintf(out, "\"%s\":\"inf\"%s", k, comma ? "," : "");
  else fprintf(out, "\"%s\":%.17g%s", k, v, comma ? "," : "");
}
static void arr(const char *k, int n, std::function<double(int)> f, bool comma = true) {
  fprintf(out, "\"%s\":[", k);
  for (int i = 0; i < n; i++) {
    double v = f(i);
    if (v != v || v - v != 0) fprintf(out, "%s\"nan\"", i ? "," : "");
    else fprintf(out, "%s%.17g", i ? "," : "", v);
  }
  fprintf(out, "]%s", comma ? "," : "");
}
static void frag(const char *k, int A, int Z, double U, double J, int P, double KE, double KEp, int nu, int ng,
                 double x, double y, double z, double px, double py, double pz, double du, double dv, double dw) {
  fprintf(out, "\"%s\":{\"A\":%d,\"Z\":%d,\"P\":%d,\"nu\":%d,\"ng\":%d,", k, A, Z, P, nu, ng);
  num("U", U); num("J", J); num("KE", KE); num("KEp", KEp);
  double pr[3] = {x, y, z}, po[3] = {px, py, pz}, di[3] = {du, dv, dw};
  arr("pre", 3, [&](int i) { return pr[i]; });
  arr("post", 3, [&](int i) { return po[i]; });
  arr("dir", 3, [&](int i) { return di[i]; }, false);
  fprintf(out, "},");
}

static void dump(Probe *e) {
  fprintf(out, "\"za\":%d,", e->getTargetNucleus());
  num("E", e->getIncidentEnergy());
  frag("LF", e->getLightFragmentMass(), e->getLightFragmentCharge(), e->getLightFragmentExcitationEnergy(), e->getLightFragmentSpin(),
       e->getLightFragmentParity(), e->getLightFragmentKineticEnergy(), e->getLightFragmentKineticEnergyPost(),
       e->getLightFragmentNeutronNu(), e->getLightFragmentPhotonNu(),
       e->getLightFragmentPreMomentumX(), e->getLightFragmentPreMomentumY(), e->getLightFragmentPreMomentumZ(),
       e->getLightFragmentPostMomentumX(), e->getLightFragmentPostMomentumY(), e->getLightFragmentPostMomentumZ(),
       e->getLightFragmentDircosu(), e->getLightFragmentDircosv(), e->getLightFragmentDircosw());
  frag("HF", e->getHeavyFragmentMass(), e->getHeavyFragmentCharge(), e->getHeavyFragmentExcitationEnergy(), e->getHeavyFragmentSpin(),
       e->getHeavyFragmentParity(), e->getHeavyFragmentKineticEnergy(), e->getHeavyFragmentKineticEnergyPost(),
       e->getHeavyFragmentNeutronNu(), e->getHeavyFragmentPhotonNu(),
       e->getHeavyFragmentPreMomentumX(), e->getHeavyFragmentPreMomentumY(), e->getHeavyFragmentPreMomentumZ(),
       e->getHeavyFragmentPostMomentumX(), e->getHeavyFragmentPostMomentumY(), e->getHeavyFragmentPostMomentumZ(),
       e->getHeavyFragmentDircosu(), e->getHeavyFragmentDircosv(), e->getHeavyFragmentDircosw());
  int n = e->getNeutronNu(), g = e->getPhotonNu(), p = e->getPreFissionNeutronNu();
  fprintf(out, "\"nn\":%d,\"ngam\":%d,\"npre\":%d,", n, g, p);
  arr("nE", n, [&](int i) { return e->getNeutronEnergy(i); });
  arr("nu", n, [&](int i) { return e->getNeutronDircosu(i); });
  arr("nv", n, [&](int i) { return e->getNeutronDircosv(i); });
  arr("nw", n, [&](int i) { return e->getNeutronDircosw(i); });
  arr("nT", n, [&](int i) { return e->getNeutronAge(i); });
  arr("cE", n, [&](int i) { return e->getCmNeutronEnergy(i); });
  arr("cu", n, [&](int i) { return e->getCmNeutronDircosu(i); });
  arr("cv", n, [&](int i) { return e->getCmNeutronDircosv(i); });
  arr("cw", n, [&](int i) { return e->getCmNeutronDircosw(i); });
  arr("gE", g, [&](int i) { return e->getPhotonEnergy(i); });
  arr("gu", g, [&](int i) { return e->getPhotonDircosu(i); });
  arr("gv", g, [&](int i) { return e->getPhotonDircosv(i); });
  arr("gw", g, [&](int i) { return e->getPhotonDircosw(i); });
  arr("gT", g, [&](int i) { return e->getPhotonAge(i); });
  arr("pE", p, [&](int i) { return e->getPreFissionNeutronEnergy(i); });
  arr("pu", p, [&](int i) { return e->getPreFissionNeutronDircosu(i); });
  arr("pv", p, [&](int i) { return e->getPreFissionNeutronDircosv(i); });
  arr("pw", p, [&](int i) { return e->getPreFissionNeutronDircosw(i); }, false);
}

static void cdump() {
  fprintf(out, "\"za\":0,\"E\":0,");
  frag("LF", cgmf_getlfmass(), cgmf_getlfcharge(), cgmf_getlfu(), cgmf_getlfspin(), cgmf_getlfparity(), cgmf_getlfke(),
       cgmf_getlfkepost(), cgmf_getlfnnu(), cgmf_getlfgnu(), cgmf_getlfpremomentum_x(), cgmf_getlfpremomentum_y(),
       cgmf_getlfpremomentum_z(), cgmf_getlfpostmomentum_x(), cgmf_getlfpostmomentum_y(), cgmf_getlfpostmomentum_z(),
       cgmf_getlfdircosu(), cgmf_getlfdircosv(), cgmf_getlfdircosw());
  frag("HF", cgmf_gethfmass(), cgmf_gethfcharge(), cgmf_gethfu(), cgmf_gethfspin(), cgmf_gethfparity(), cgmf_gethfke(),
       cgmf_gethfkepost(), cgmf_gethfnnu(), cgmf_gethfgnu(), cgmf_gethfpremomentum_x(), cgmf_gethfpremomentum_y(),
       cgmf_gethfpremomentum_z(), cgmf_gethfpostmomentum_x(), cgmf_gethfpostmomentum_y(), cgmf_gethfpostmomentum_z(),
       cgmf_gethfdircosu(), cgmf_gethfdircosv(), cgmf_gethfdircosw());
  int n = cgmf_getnnu(), g = cgmf_getgnu(), p = cgmf_getprennu();
  fprintf(out, "\"nn\":%d,\"ngam\":%d,\"npre\":%d,", n, g, p);
  arr("nE", n, cgmf_getnerg);     arr("nu", n, cgmf_getndircosu); arr("nv", n, cgmf_getndircosv);
  arr("nw", n, cgmf_getndircosw); arr("nT", n, cgmf_getntme);
  arr("cE", n, cgmf_getcmnerg);   arr("cu", n, cgmf_getcmndircosu); arr("cv", n, cgmf_getcmndircosv); arr("cw", n, cgmf_getcmndircosw);
  arr("gE", g, cgmf_getgerg);     arr("gu", g, cgmf_getgdircosu); arr("gv", g, cgmf_getgdircosv);
  arr("gw", g, cgmf_getgdircosw); arr("gT", g, cgmf_getgtme);
  arr("pE", p, cgmf_getprenerg);  arr("pu", p, cgmf_getprendircosu); arr("pv", p, cgmf_getprendircosv);
  arr("pw", p, cgmf_getprendircosw, false);
}

static void oor(Probe *e) {
  int n = e->getNeutronNu(), g = e->getPhotonNu(), p = e->getPreFissionNeutronNu();
  int in[3] = {-1, n, n + 7}, ig[3] = {-1, g, g + 7}, ip[3] = {-1, p, p + 7};
  arr("oor", 54, [&](int k) {
    int i = k % 3;
    switch (k / 3) {
      case 0: return e->getNeutronEnergy(in[i]);   case 1: return e->getNeutronDircosu(in[i]);
      case 2: return e->getNeutronDircosv(in[i]);  case 3: return e->getNeutronDircosw(in[i]);
      case 4: return e->getNeutronAge(in[i]);      case 5: return e->getCmNeutronEnergy(in[i]);
      case 6: return e->getCmNeutronDircosu(in[i]); case 7: return e->getCmNeutronDircosv(in[i]);
      case 8: return e->getCmNeutronDircosw(in[i]); case 9: return e->getPhotonEnergy(ig[i]);
      case 10: return e->getPhotonDircosu(ig[i]);  case 11: return e->getPhotonDircosv(ig[i]);
      case 12: return e->getPhotonDircosw(ig[i]);  case 13: return e->getPhotonAge(ig[i]);
      case 14: return e->getPreFissionNeutronEnergy(ip[i]);
      case 15: return e->getPreFissionNeutronDircosu(ip[i]);
      case 16: return e->getPreFissionNeutronDircosv(ip[i]);
      default: return e->getPreFissionNeutronDircosw(ip[i]);
    }
  }, false);
}
static void coor() {
  int n = cgmf_getnnu(), g = cgmf_getgnu(), p = cgmf_getprennu();
  int in[3] = {-1, n, n + 7}, ig[3] = {-1, g, g + 7}, ip[3] = {-1, p, p + 7};
  arr("oor", 54, [&](int k) {
    int i = k % 3;
    switch (k / 3) {
      case 0: return cgmf_getnerg(in[i]);       case 1: return cgmf_getndircosu(in[i]);
      case 2: return cgmf_getndircosv(in[i]);   case 3: return cgmf_getndircosw(in[i]);
      case 4: return cgmf_getntme(in[i]);       case 5: return cgmf_getcmnerg(in[i]);
      case 6: return cgmf_getcmndircosu(in[i]); case 7: return cgmf_getcmndircosv(in[i]);
      case 8: return cgmf_getcmndircosw(in[i]); case 9: return cgmf_getgerg(ig[i]);
      case 10: return cgmf_getgdircosu(ig[i]);  case 11: return cgmf_getgdircosv(ig[i]);
      case 12: return cgmf_getgdircosw(ig[i]);  case 13: return cgmf_getgtme(ig[i]);
      case 14: return cgmf_getprenerg(ip[i]);   case 15: return cgmf_getprendircosu(ip[i]);
      case 16: return cgmf_getprendircosv(ip[i]);
      default: return cgmf_getprendircosw(ip[i]);
    }
  }, false);
}

// Is a request served? A child asks; its first random number ends it (77: served). It is refused if
// it fails (status other than 0 and 77) and says something on stderr.
static double served_rng() { _exit(77); }
static char ask(const std::string &how, int za, double e, int n) {
  int fd[2];
  if (pipe(fd)) exit(2);
  pid_t pid = fork();
  if (pid < 0) exit(2);
  if (pid == 0) {
    close(fd[0]); dup2(fd[1], 2); close(fd[1]);
    alarm(60);
    set_rng(std::function<double(void)>(served_rng));
    if (how == "ev") new Probe(za, e, 0., -1.);
    else if (how == "cev") { setrngdptr(served_rng); cgmf_genfissevent(za, e, 0., -1.); }
    else cgmfYields(za, e, n, "gate.out");
    _exit(78);
  }
  close(fd[1]);
  char buf[256]; ssize_t k, tot = 0;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) tot += k;
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return 's';
  if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 78 && tot > 0) return 'r';
  return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? '0' : '?';
}

static Rng *crng = 0;
static double crand() { return (*crng)(); }

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  out = fopen(argv[2], "w");
  if (!in || !out) return 2;
  std::map<int, Probe *> slot;
  std::string line;
  int ln = 0;
  while (std::getline(in, line)) {
    ln++;
    std::istringstream s(line);
    std::string op;
    s >> op;
    if (op.empty() || op[0] == '#') continue;
    if (op == "data") {
      std::string p; s >> p; setdatapath(p == "-" ? std::string("") : p);
    } else if (op == "seed") {
      int k; s >> k;
      delete crng; crng = new Rng(k);
      set_rng(std::function<double(void)>(*crng));
    } else if (op == "useed") {
      int k; s >> k;
      UniformRNG u(1);
      u.set_seed(k);
      set_rng(u);
    } else if (op == "cseed") {
      int k; s >> k;
      delete crng; crng = new Rng(k);
      setrngdptr(crand);
    } else if (op == "ev") {
      int k, za; std::string e, t, w; s >> k >> za >> e >> t >> w;
      if (slot.count(k)) { delete slot[k]; slot.erase(k); }
      slot[k] = new Probe(za, atof(e.c_str()), atof(t.c_str()), atof(w.c_str()));
      fprintf(out, "{\"op\":\"ev\",\"slot\":%d,\"line\":%d,", k, ln);
      dump(slot[k]);
      fprintf(out, "}\n"); fflush(out);
    } else if (op == "evd") {
      int k, za; std::string e, t; s >> k >> za >> e >> t;
      if (slot.count(k)) { delete slot[k]; slot.erase(k); }
      slot[k] = new Probe(za, atof(e.c_str()), atof(t.c_str()));
      fprintf(out, "{\"op\":\"ev\",\"slot\":%d,\"line\":%d,", k, ln);
      dump(slot[k]);
      fprintf(out, "}\n"); fflush(out);
    } else if (op == "show") {
      int k; s >> k;
      fprintf(out, "{\"op\":\"show\",\"slot\":%d,\"line\":%d,", k, ln);
      dump(slot[k]);
      fprintf(out, "}\n"); fflush(out);
    } else if (op == "oor") {
      int k; s >> k;
      fprintf(out, "{\"op\":\"oor\",\"slot\":%d,\"line\":%d,", k, ln);
      oor(slot[k]);
      fprintf(out, "}\n"); fflush(out);
    } else if (op == "free") {
      int k; s >> k;
      delete slot[k]; slot.erase(k);
      fprintf(out, "{\"op\":\"free\",\"slot\":%d,\"line\":%d}\n", k, ln); fflush(out);
    } else if (op == "cev") {
      int za; std::string e, t, w; s >> za >> e >> t >> w;
      cgmf_genfissevent(za, atof(e.c_str()), atof(t.c_str()), atof(w.c_str()));
      fprintf(out, "{\"op\":\"cev\",\"slot\":-1,\"line\":%d,", ln);
      cdump();
      fprintf(out, "}\n"); fflush(out);
    } else if (op == "cshow") {
      fprintf(out, "{\"op\":\"cshow\",\"slot\":-1,\"line\":%d,", ln);
      cdump();
      fprintf(out, "}\n"); fflush(out);
    } else if (op == "coor") {
      fprintf(out, "{\"op\":\"coor\",\"slot\":-1,\"line\":%d,", ln);
      coor();
      fprintf(out, "}\n"); fflush(out);
    } else if (op == "cclean") {
      cgmf_clean();
      fprintf(out, "{\"op\":\"cclean\",\"slot\":-1,\"line\":%d}\n", ln); fflush(out);
    } else if (op == "yld") {
      int za, n; std::string e, f; s >> za >> e >> n >> f;
      { cgmfYields y(za, atof(e.c_str()), n, f); }
      fprintf(out, "{\"op\":\"yld\",\"slot\":-2,\"line\":%d}\n", ln); fflush(out);
    } else if (op == "gate") {
      std::string how, e; int n, lo, hi; s >> how >> e >> n >> lo >> hi;
      fprintf(out, "{\"op\":\"gate\",\"slot\":-6,\"line\":%d,\"not_refused\":[", ln);
      fflush(out);
      bool first = true;
      for (int za = lo; za <= hi; za++) {
        char c = ask(how, za, atof(e.c_str()), n);
        if (c == 'r') continue;
        fprintf(out, "%s[%d,\"%c\"]", first ? "" : ",", za, c); fflush(out);
        first = false;
      }
      fprintf(out, "]}\n"); fflush(out);
    } else if (op == "cgm") {
      int za; double ex; s >> za >> ex;
      int ng = 0, nn = 0; double g[512], n[512];
      cgm(za, ex, &ng, g, &nn, n);
      fprintf(out, "{\"op\":\"cgm\",\"slot\":-3,\"line\":%d,\"zaid\":%d,\"ex\":%.17g,", ln, za, ex);
      arr("g", ng, [&](int i) { return g[i]; });
      arr("n", nn, [&](int i) { return n[i]; }, false);
      fprintf(out, "}\n"); fflush(out);
    } else if (op == "cleanup") {
      cgmf_cleanup();
      fprintf(out, "{\"op\":\"cleanup\",\"slot\":-4,\"line\":%d}\n", ln); fflush(out);
    } else return 2;
  }
  fprintf(out, "{\"op\":\"end\",\"slot\":-5,\"line\":%d}\n", ln);
  fclose(out);
  return 0;
}
