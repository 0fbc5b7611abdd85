// Simulated outside world of libmypaint: tile store, recording surface, brushes, input devices.
#pragma once
#include "core.h"
extern "C" {
#include "mypaint.h"
#include "mypaint-brush.h"
#include "mypaint-brush-settings.h"
#include "mypaint-surface.h"
#include "mypaint-tiled-surface.h"
#include "mypaint-fixed-tiled-surface.h"
#include "mypaint-mapping.h"
#include "mypaint-symmetry.h"
#include "mypaint-matrix.h"
#include "mypaint-rectangle.h"
}

int &rt_inlib(); struct OutLib { int s; OutLib() : s(rt_inlib()) { rt_inlib() = 0; } ~OutLib() { rt_inlib() = s; } }; // inside of a callback
// ---------------------------------------------------------------- dabs
struct Dab { float x, y, radius, r, g, b, opaque, hardness, softness, a, ratio, angle, lock, colorize, posterize, posterize_num, paint; };
std::vector<double> dab_args(const Dab &d);
Dab dab_from(const Op &o, size_t off = 0);
struct DabGen { double area = 60, cx = 0, cy = 0; double rmin = 0.3, rmax = 20; double quant = 0; bool blends = true, weird = false, paint = true; };
Dab gen_dab(Rng &r, const DabGen &g);
std::string dab_str(const Dab &d);

// ---------------------------------------------------------------- tile store
struct Tile { std::vector<u16> px; int writers = 0, readers = 0; u64 served = 0; bool failing = false; };
typedef std::pair<int, int> TI;
typedef std::map<TI, std::vector<u16>> Snap;
struct StoreCfg {
    int mode = 0;          // 0 direct pointers, 1 a private copy per request, written back at its end
    int init = 0;          // 0 transparent, 1 0xffff, 2 opaque white, 3 random valid pixels, 4 uniform colour, 5 half covered noise
    u64 seed = 1; int dx = 0, dy = 0; // translation of the initial content
    u16 uni[4] = {0, 0, 0, 0};
    bool threadsafe = false; bool protocol = true; int max_threads = 16;
    int fw = -1, fh = -1;  // when >= 0: only tiles 0..fw-1 x 0..fh-1 are kept, others are empty and forget writes
    double p_fail = 0; u64 fail_seed = 0; // random failing requests
    int delay = 0;
};
struct Store {
    StoreCfg cfg; int ts = 64; std::map<TI, Tile> tiles; std::set<TI> fail_tiles; bool fail_all = false; int only_row = INT32_MIN; /* serve only this row of tiles */ u64 requests = 0, failed = 0, writes = 0; int inflight = 0;
    struct Req { TI t; bool ro; u16 *buf; MyPaintTileRequest *r; int thread; int tid; int level; std::vector<u16> before; u16 *base; bool outside; bool failed; };
    std::map<void *, Req> reqs; std::vector<u16 *> pool; std::vector<std::pair<u16 *, int>> poisoned;
    std::map<TI, u64> wcount; // write requests served per tile
    int home_tid = 0; u64 max_conc = 0; bool in_call = true; u64 tokens = 0; bool uses_omp = true; std::map<TI, u64> fcount, seen_fail; std::vector<std::pair<TI, bool>> wlog; /* write requests in order: tile, served */
    void pixel(int x, int y, u16 *p) const;
    Tile &tile(TI t);
    void get(int x, int y, u16 *p);             // current pixel
    Snap snap() const;
    void start(MyPaintTileRequest *r); void end(MyPaintTileRequest *r);
    void idle(const char *after);               // nothing may be in flight now
    void touch_all(int x0, int y0, int x1, int y1);
    ~Store();
};
struct SimSurface { MyPaintTiledSurface parent; Store *st; bool dead; MyPaintSurfaceDrawDabFunction draw0; MyPaintSurfaceGetColorFunction pick0; };
SimSurface *surf_new(const StoreCfg &c);        // NULL when the library ran out of memory
void surf_unref(SimSurface *s);
static inline MyPaintSurface *IF(SimSurface *s) { return (MyPaintSurface *)s; }
// first difference of two contents, "" when equal
std::string diff_stores(Store &a, Store &b, int dx = 0, int dy = 0);

// ---------------------------------------------------------------- calls into the library (noted for crash reports, accounted)
int  L_draw(MyPaintSurface *s, const Dab &d);
void L_begin(MyPaintSurface *s);
void L_end(MyPaintSurface *s, MyPaintRectangles *r = nullptr);
struct Col { float r = -7, g = -7, b = -7, a = -7; };
Col  L_pick(MyPaintSurface *s, float x, float y, float radius, float paint);
void L_symm(SimSurface *s, bool active, float cx, float cy, float ang, int type, int lines);
#define LIB(...) ([&]() { InLib in_lib_; return __VA_ARGS__; }())

// ---------------------------------------------------------------- recording surface
struct RecDab { Dab d; u64 ev; };
struct RecSurface { MyPaintSurface parent; std::vector<RecDab> *dabs; u64 ev; int mode; u64 seed; u64 picks; bool (*paints)(RecSurface *, const Dab &); u64 ndabs; int retmode; u64 retseed; bool check_finite; u64 cap; u64 dropped; };
RecSurface *rec_new(int color_mode, u64 seed);
void rec_free(RecSurface *r);
static inline MyPaintSurface *IF(RecSurface *s) { return (MyPaintSurface *)s; }
bool dab_eq(const Dab &a, const Dab &b); // bitwise
std::string diff_dabs(const std::vector<RecDab> &a, const std::vector<RecDab> &b, size_t a0 = 0, size_t b0 = 0);
void hash_dab(const Dab &d);

// ---------------------------------------------------------------- brushes and input events
struct BrushGen { bool random = false, smudge = true, dynamics = true, noise = false, gridmap_dyn = true, smudge_transp = true, big = false; double rlog_min = -1, rlog_max = 3.2; bool slow_tracking = true; bool buckets = false; double max_dabs = 12; };
void tame_map(std::vector<double> &a);
void gen_brush(Rng &r, Plan &p, const BrushGen &g, const char *prefix = "");
// ops: "set" id v ; "map" id input x0 y0 x1 y1 ...
bool apply_brush_op(MyPaintBrush *b, const Op &o);
MyPaintBrush *brush_new(int buckets);
struct Ev { float x, y, pressure, xt, yt; double dt; float zoom, rot, barrel; int linear; };
std::vector<double> ev_args(const Ev &e);
Ev ev_from(const Op &o, size_t off = 0);
struct EvGen { double area = 80, cx = 0, cy = 0; bool faults = true; double speed = 1; bool tilt = true, view = true; double gap5 = 0.01; double quant = 0; };
struct EvState { double x = 0, y = 0, p = 0; double vx = 0, vy = 0; bool down = false; int left = 0; float zoom = 1, rot = 0; double xt = 0, yt = 0; };
Ev gen_ev(Rng &r, EvState &s, const EvGen &g);
int L_stroke(MyPaintBrush *b, MyPaintSurface *s, const Ev &e);
std::string ev_str(const Ev &e);
extern const char *SET_NAME(int id);
float f32(double d);
SchedCfg sched_from(const Plan &p);
void gen_sched(Rng &r, Plan &p, int maxthreads, double heavy = 1);
void warm_up(u64 seed);
