// Shared pieces of the brush engine properties.
#pragma once
#include "canvas.h"
static inline bool is_brush_op(const Op &o) { return o.k == "defaults" || o.k == "set" || o.k == "map"; }
static inline int B_state(MyPaintBrush *b, float *out) { for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) out[i] = LIB(mypaint_brush_get_state(b, (MyPaintBrushState)i)); return MYPAINT_BRUSH_STATES_COUNT; }
static inline float B_st(MyPaintBrush *b, MyPaintBrushState i) { return LIB(mypaint_brush_get_state(b, i)); }
static inline bool feq(float a, float b) { return a == b || (a != a && b != b); }
static inline bool B_bucket(MyPaintBrush *b, int i, float *o) { InLib l; return mypaint_brush_get_smudge_bucket_state(b, i, o, o + 1, o + 2, o + 3, o + 4, o + 5, o + 6, o + 7, o + 8); }
static inline bool B_setbucket(MyPaintBrush *b, int i, const float *v) { InLib l; return mypaint_brush_set_smudge_bucket_state(b, i, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); }
static inline void B_unref(MyPaintBrush *b) { sim_note("brush_unref"); InLib l; mypaint_brush_unref(b); }
// one event on a recording surface; returns what stroke_to returned
static inline int R_ev(MyPaintBrush *b, RecSurface *s, const Ev &e, u64 id) { s->ev = id; int r = L_stroke(b, IF(s), e); return r; }
static inline std::string diff_states(MyPaintBrush *a, MyPaintBrush *b) { for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) { float x = B_st(a, (MyPaintBrushState)i), y = B_st(b, (MyPaintBrushState)i); if (!feq(x, y)) { char t[120]; snprintf(t, sizeof t, "state %d: %.9g versus %.9g", i, x, y); return t; } } return ""; }
static inline std::string diff_buckets(MyPaintBrush *a, MyPaintBrush *b, int n) { float x[9], y[9]; for (int i = 0; i < n; i++) { B_bucket(a, i, x); B_bucket(b, i, y); for (int k = 0; k < 9; k++) if (!feq(x[k], y[k])) { char t[120]; snprintf(t, sizeof t, "bucket %d[%d]: %.9g versus %.9g", i, k, x[k], y[k]); return t; } } return ""; }
static inline void state_of(MyPaintBrush *b) { Hash h; for (int i : {0, 3, 4, 5, 6}) h.add((u64)(long)(B_st(b, (MyPaintBrushState)i) * 4)); sim_state(h.h); }
// replaces pressing down after a long stall, which the engine turns into two events
static inline void no_split_event(MyPaintBrush *b, Ev &e) { if (e.dt > 0.1 && e.pressure > 0 && B_st(b, MYPAINT_BRUSH_STATE_PRESSURE) == 0) e.dt = 0.09; }
#define SET(n) MYPAINT_BRUSH_SETTING_##n
