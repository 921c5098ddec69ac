/* A provider crashes, or its file of subscriptions is damaged. */
#include "cache.h"
static struct vfile snap[VP_NFILES]; static int snap_at, muts, snapped, tear;
static void on_file(int op, int f, size_t before) { muts++; if (snapped || muts != snap_at) return; memcpy(snap, vp_files, sizeof snap); snapped = 1; if (op == 2 && tear) { uint16_t n = vp_u16("bytes written"); vp_assume(n >= before && n <= vp_files[f].len); snap[f].len = n; } }
/* crashed at any moment, at any change of any file */
static void crashed(void) {
  setup(); client_files(1); int n = (int)vp_param("ops", 1), w = 0; for (int k = 0; k + 1 < n; k++) step(&w); int was[NS]; for (int i = 0; i < NS; i++) was[i] = S[i].on;
  snap_at = (int)vp_choose(5, "the change of a file after which it crashes"); tear = 1; muts = 0; snapped = 0; memcpy(snap, vp_files, sizeof snap); if (!snap_at) snapped = 1; vp_file_hook = on_file; step(&w); vp_file_hook = NULL; if (!snapped) { vp_assume(muts < snap_at); memcpy(snap, vp_files, sizeof snap); }
  int later[NS]; for (int i = 0; i < NS; i++) later[i] = S[i].on; rbus_close(hp); memcpy(vp_files, snap, sizeof snap);
  start(0, "a"); /* a subscription that was just beginning or ending may be there or not; all others are as they were */
  for (int i = 0; i < NS; i++) { bus_clear(); if (was[i] != later[i]) S[i].on = 2; else S[i].on = later[i]; }
  for (int i = 0; i < NS; i++) if (S[i].on == 2) { int rc = foreign(&S[i], 1); vp_check(rc == 0 || rc == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST, "a subscription that was on its way is there or can be made"); S[i].on = 1; }
  told(); vp_reach("crashed"); finish(); }
/* a file of subscriptions that was damaged */
static void kept(int p, int exact) { /* those before the damage are in effect */ bus_clear(); rbusEvent_t e = { "Device.C.X!", RBUS_EVENT_GENERAL, NULL }; rbusObject_Init(&e.data, NULL); rbusEvent_Publish(hp, &e); rbusObject_Release(e.data); int ok = 1, bad = 0, n = 0; for (int i = 0; i < 3; i++) if (ends[i] && ends[i] <= p) { int got = 0; n++; for (int j = 0; j < bus_nout; j++) got += sent_to(&bus_out[j], &S[i], "Device.C.X!", &bad); ok &= exact ? got == 1 : got >= 1; } if (exact) ok &= bus_nout == n; vp_check(ok, "subscriptions kept before the damage are in effect"); bus_clear(); }
static void damaged(void) {
  setup(); client_files(1); for (int i = 0; i < NS; i++) S[i].on = 0; vp_check(rbus_close(hp) == 0, "the provider closes"); int f = subs_file(); if (f < 0) { vp_error("subscriptions are not kept"); return; } int len = (int)vp_files[f].len, at = (int)vp_param("at", 0), to = (int)vp_param("to", 0), cut = 0, n = (int)vp_param("n", 2); if (!to || to > len) to = len; vp_debug("length", (uint64_t)len);
  if (vp_param("cut", 0)) { cut = (int)vp_choose((unsigned)len, "length"); vp_files[f].len = (size_t)cut; } else if (vp_param("raw", 0)) { vp_bytes(vp_files[f].data, (unsigned)n, "bytes"); vp_files[f].len = (size_t)n; cut = 0; }
  else { if (at >= to) vp_end_path(); int p = cut = at + (int)vp_choose((unsigned)(to - at), "position"); for (int i = 0; i < n && p + i < len; i++) vp_files[f].data[p + i] = vp_u8("byte"); }
  int exact = (int)vp_param("cut", 0); start(1, "a"); kept(cut, exact); S[2].id = 9; S[2].box = "cli.INBOX.9"; ends[2] = 0; if (vp_choose(2, "a change before it ends again")) { vp_check(foreign(&S[2], 1) == 0, "an event can be subscribed to"); vp_check(foreign(&S[2], 0) == 0, "a subscription ends when asked"); } vp_check(rbus_close(hp) == 0, "the provider closes");
  start(1, "a"); kept(cut, exact); vp_check(foreign(&S[2], 1) == 0, "an event can be subscribed to"); vp_check(rbus_close(hp) == 0, "the provider closes"); vp_reach("damaged"); }
int main(void) { switch (vp_param("scen", 0)) { case 1: crashed(); break; case 2: damaged(); break; } return 0; }
