/* A provider closes and comes back. */
#include "cache.h"
static void back(void) { /* the provider is back: what holds afterwards */
  int late = (int)vp_choose(3, "when its row comes and who left before"); start(late != 0, late ? NULL : "a"); if (late) { if (late == 2) { leave("cli.INBOX.8"); } told(); vp_check(rbusTable_registerRow(hp, "Device.C.T.", 1, "a") == 0, "a row registers"); row_there = 1; }
  told(); }
static void ids(void) { for (int i = 0; i < NS; i++) if (!S[i].on) { vp_check(foreign(&S[i], 1) == 0, "an event can be subscribed to"); S[i].on = 1; } int same = 0; for (int i = 0; i < NS; i++) for (int j = 0; j < i; j++) same |= S[i].sid == S[j].sid; vp_check(!same, "each subscription has its own number"); }
/* closed, then back */
static void closed(void) {
  setup(); int n = (int)vp_param("ops", 2), w; for (int k = 0; k < n; k++) step(&w); told(); vp_check(rbus_close(hp) == 0, "the provider closes");
  int three = (int)vp_choose(2, "a client's component still there"); client_files(three); if (!three) S[5].on = 0; if (vp_choose(2, "a client died")) { dead[7] = 1; for (int i = 0; i < NS; i++) if (S[i].pid == 7) S[i].on = 0; }
  back(); dead[7] = 0; if (vp_choose(2, "twice")) { client_files(1); vp_check(rbus_close(hp) == 0, "the provider closes"); start(1, "a"); told(); } ids(); vp_reach("closed"); finish(); }
int main(void) { closed(); return 0; }
