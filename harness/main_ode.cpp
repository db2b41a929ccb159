#include "explore.h"
#include "ode.h"
int g_cap = 0, g_open = 0; int Du::k = 0; double *g_ratio; int *g_effort; double CTOL = 0;
void fam_ode(Fams &, bool, const std::string &); void fam_fault(Fams &, bool, const std::string &);
int main(int c, char **v) {
  g_ratio = (double *)mmap(0, NGROUP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (getenv("FZ_EFFORT")) g_effort = (int *)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (getenv("FZ_CTOL")) CTOL = atof(getenv("FZ_CTOL"));
  int rc = explore_main(c, v, [](bool th, const std::string &s) { Fams F; fam_ode(F, th, s); fam_fault(F, th, s); return F; });
  if (const char *fn = getenv("FZ_RATIO")) { FILE *o = fopen(fn, "a"); for (int i = 0; i < NGROUP; i++) if (g_ratio[i] > 0) fprintf(o, "%d %.4g\n", i, g_ratio[i]); fclose(o); }
  if (const char *fn = getenv("FZ_EFFORT")) { FILE *o = fopen(fn, "w"); for (int i = 0; i < 8192; i++) if (g_effort[2 * i]) fprintf(o, "{%d, %d, %d},\n", i, g_effort[2 * i], g_effort[2 * i + 1]); fclose(o); }
  return rc;
}
