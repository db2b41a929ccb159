#include "explore.h"
int g_cap = 0, g_open = 0;
void fam_ops(Fams &, bool, const std::string &); void fam_graph(Fams &, bool, const std::string &);
void fam_fun(Fams &, bool, const std::string &); void fam_arr(Fams &, bool, const std::string &); void fam_grow(Fams &, bool, const std::string &);
int main(int c, char **v) {
  return explore_main(c, v, [](bool th, const std::string &s) { Fams F; fam_ops(F, th, s); fam_graph(F, th, s); fam_fun(F, th, s); fam_arr(F, th, s); fam_grow(F, th, s); return F; });
}
