#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the lines stay well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

TS="mypaint-tiled-surface.c"; BR="mypaint-brush.c"; OQ="operationqueue.c"

prop("C01", "Parallel rendering leaves exactly the canvas one thread would",
 "On a tiled surface that declares its tile requests thread-safe, for any sequence of dabs and colour pickups with given parameters, the canvas is bit for bit the one a single thread renders, whatever the number of worker threads and however they interleave. No two workers ever touch the same memory without synchronisation. Colour pickups return what the single thread gets, up to floating-point rounding.",
 ["schedules","inputs","histories"],
 "every interleaving of 1..16 workers at every memory access, every dab/pickup history, any tile layout",
 "The shipped build and its tests run with OpenMP off or on one uncontrolled schedule; no test forces two workers to interleave inside the tile loop, the queue or the colour accumulator.",
 [TS,OQ,"fifo.c","tilemap.c","brushmodes.c"],
 [("per-tile work split, one worker per tile","mypaint-tiled-surface.c end_atomic parallel loop"),("queue is lock-free on different tiles","operationqueue.c pop/tile_map_get"),("critical section around the colour sums","mypaint-tiled-surface.c get_color")],
 [("threadsafe_tile_requests","surface allows concurrent tile requests",TS)],["tile buffers at request end","get_color results"])

prop("C02", "The canvas is its dabs applied one by one in call order",
 "After any history of dabs, the canvas holds exactly the result of applying each dab (and its symmetry replicas) once, completely and in call order. It does not depend on how dabs are grouped into atomic transactions, on colour pickups made in between, on how many dabs or tiles were pending, or on where the tile grid lies under them.",
 ["histories","inputs","configurations"],
 "every sequence of draw/begin/end/pickup calls, every number of pending operations and tiles, positive and negative tile coordinates, every whole-pixel translation",
 "Tests render a couple of fixed strokes and compare nothing but timing or a saved reference; queue growth, pruning of the dirty list and flush-by-sampling are reached only by particular histories.",
 [TS,OQ,"fifo.c","tilemap.c"],
 [("per-tile FIFO of operations","operationqueue.c add/pop"),("dirty tile list with duplicate pruning and growth","operationqueue.c"),("tile range of a dab","draw_dab_internal")],
 [("operation queue","operations accepted but not yet rendered",OQ)],["tile store contents after end_atomic"])

prop("C03", "Damage reports cover every pixel a transaction changed",
 "The rectangles returned when an atomic transaction ends cover every pixel whose value changed since it began, for every symmetry setting, any number of rectangles the caller has room for (at least one) and even when memory for bounding boxes ran out. Never more rectangles than the caller's capacity are written, a transaction that drew nothing reports none, and without symmetry the report does not reach more than a few pixels beyond the dabs drawn in that transaction.",
 ["histories","inputs","configurations","fault_sequences"],
 "every sequence of dabs/symmetry changes/pickups inside and across transactions, capacities 1..n, allocation failures",
 "Tests check the report for a handful of fixed transactions with enough room and no failed allocation.",
 [TS,"mypaint-rectangle.c","mypaint-symmetry.c"],
 [("one bounding box per symmetry replica, merged into the caller's array","end_atomic / draw_dab / update_dirty_bbox"),("growth of the bounding box array","prepare_bounding_boxes")],
 [("num_bboxes_dirtied","how many boxes this transaction used",TS)],["MyPaintRectangles returned by end_atomic"])

prop("C04", "Tile requests follow the protocol tile stores rely on",
 "Every tile a surface hands out is returned exactly once before the call that needed it ends, with the request unchanged; memory of a tile is touched only between its request and its return. While a tile is out for writing nobody else has that tile out, and a tile requested read-only is never modified. Concurrent requests are made only if the store declared itself thread-safe, and then (made by the thread that called mypaint_init) carry distinct thread numbers below the supported maximum.",
 ["schedules","histories","inputs","fault_sequences"],
 "every dab/pickup/transaction history, every interleaving of workers, with tile requests failing at arbitrary points",
 "Test surfaces hand out direct pointers into one buffer, so late writes, double returns, or aliasing of a tile go unnoticed.",
 [TS,"mypaint-fixed-tiled-surface.c","mypaint.c"],
 [("request start/end pairing","process_tile, get_color"),("worker count cap","mypaint_init")],
 [("tile requests in flight","pairs of start and end calls",TS)],["tile_request_start/tile_request_end callbacks"])

prop("C05", "A failing tile store loses at most the affected work",
 "If the tile store cannot provide a tile (no buffer), the surface survives: the pending work for that tile may be lost, but never applied twice or in part to it later, every other tile is rendered as if nothing had happened, and once the store works again new dabs on that tile render normally. A colour pickup over missing tiles returns a valid colour (all components within 0..1) instead of aborting, and no memory is lost.",
 ["fault_sequences","histories","schedules"],
 "every choice of failing tile requests (single, bursts, permanent per tile) in every dab/pickup history, with and without worker threads",
 "No test has a store that ever fails.",
 [TS,OQ],
 [("skip of tiles without a buffer","process_tile, get_color")],
 [("per-tile pending operations","must not go stale when a request fails",OQ)],["canvas versus reference","get_color results"])

prop("C06", "Running out of memory never corrupts or kills",
 "When any single allocation, or all allocations from some point on, fail inside the library, a constructor returns no object and leaks nothing, and any other call returns with the object still usable; no crash, no invalid memory access. Work in progress may be dropped, but no tile ever holds anything other than a subset of the dabs drawn, in order, and after memory is available again new work is carried out normally.",
 ["fault_sequences","histories","inputs"],
 "every allocation site and every failure pattern (n-th, burst, from n on) over histories of construction, drawing, symmetry changes, transactions, brush loading and destruction",
 "malloc never fails in tests.",
 [OQ,"fifo.c","tilemap.c",TS,BR,"mypaint-mapping.c","rng-double.c","mypaint-fixed-tiled-surface.c","mypaint-symmetry.c","mypaint-rectangle.c"],
 [("NULL checks on allocations","constructors, queue growth, bounding boxes, symmetry matrices")],
 [],["return values","canvas versus subsets of the dabs"])

prop("C07", "Everything allocated is released exactly once, at any time",
 "Dropping the last reference to a brush or surface at any moment (mid-stroke, mid-transaction, with operations still queued, after loading documents, after symmetry or bounding-box growth) releases all memory the library obtained for it, once, and not earlier. Extra references, also those taken by copying through the registered GLib types, keep the object fully usable (the copy is the object); repeated use has no growth: a finished transaction leaves no more memory held than the queue and bounding-box capacity require.",
 ["histories","crash_points","inputs"],
 "every prefix of every history of API calls followed by teardown",
 "Tests tear down only finished work and do not account for memory.",
 [OQ,"fifo.c","tilemap.c",TS,BR,"mypaint-surface.c","mypaint-mapping.c","mypaint-symmetry.c","mypaint-fixed-tiled-surface.c"],
 [("reference counts","mypaint_brush_unref, mypaint_surface_unref"),("queue teardown frees queued operations","operation_queue_free"),("boxed types copy by reference","glib/mypaint-brush.c")],
 [],["allocator accounting"])

prop("C08", "Separate brushes and surfaces may be used from separate threads",
 "Threads that each use their own brushes and surfaces never interfere: whatever the interleaving, every thread paints exactly what it would paint running alone (given the same random numbers from the C library), and the library never makes two such threads access the same memory without synchronisation, also when they are the first to use it in the process.",
 ["schedules","histories","inputs"],
 "every interleaving of 2..4 application threads with independent instances over random strokes with smudging, colour dynamics and symmetry",
 "Tests are single-threaded.",
 ["helpers.c",BR,TS,"rng-double.c","brushmodes.c"],
 [("state kept in instances, not in globals","MyPaintBrush, MyPaintTiledSurface")],
 [],["dab streams and canvases per thread","memory accesses"])

prop("C09", "Same inputs give the same painting, always",
 "Painting is a function of the sequence of API calls alone: two fresh instances given the same settings and events place identical dabs and produce identical canvases, regardless of memory contents left by earlier work, addresses, the clock, other instances in use, debug output, or how often the same work was done before. The only outside influence is the C library's rand(), used for large colour pickups in spectral mode. This includes brushes with random settings, whose random stream belongs to the instance.",
 ["histories","inputs","configurations"],
 "all brushes (including random, gridmap, smudge, dynamics), event streams, and arbitrary garbage in fresh heap and stack memory",
 "Tests run once in one process with mostly zeroed fresh memory.",
 [BR,"rng-double.c","mypaint-mapping.c",TS,"mypaint-fixed-tiled-surface.c"],
 [("constructor initialises all state","mypaint_brush_new_with_buckets, brush_reset"),("private fixed-seed random generator","rng-double.c")],
 [],["dab stream","canvas"])

prop("C10", "Reset forgets the past completely",
 "After an explicit reset, or a gap of more than five seconds between events, the next event (pen hovering, no pressure) only repositions the brush and everything after it paints exactly what a new brush with the same settings would paint for the same events, apart from the random stream: no trace of the earlier stroke, its smudged colours, speed, direction, position or pending skip remains.",
 ["histories","crash_points","inputs"],
 "every stroke prefix of every brush without random settings, cut at any event, reset either way",
 "Tests never compare a reset brush with a fresh one.",
 [BR],
 [("state and smudge bucket clearing","brush_reset"),("reset request and time-gap handling","mypaint_brush_stroke_to")],
 [("states, smudge buckets","all that a stroke accumulates",BR)],["dab stream after the reset"])

prop("C11", "Saved engine state resumes a stroke exactly",
 "Recording all readable states and smudge buckets of a brush between any two events, and writing them into another brush with the same settings that has processed its initial reset, makes that brush continue the stroke with exactly the dabs the first one produces (for brushes without random settings or curves on the grid map scale). Reading a state or bucket returns the value last written.",
 ["crash_points","histories","inputs"],
 "every event boundary of every stroke as the point where the process dies and is restarted from the record",
 "Tests only set and read single states.",
 [BR],
 [("get/set of states and smudge buckets","mypaint_brush_get_state .. set_smudge_bucket_state")],
 [],["dab stream after resume"])

prop("C12", "Insane input events are harmless",
 "A motion event with non-finite or absurdly large (beyond 1e10) coordinates is as if it had never been delivered: it draws nothing and does not change anything painted later. Events with zero or negative elapsed time are treated as a very short positive time (0.1 ms), and negative pressure as none. For any finite in-range event stream every parameter handed to the surface is a finite number.",
 ["inputs","histories","fault_sequences"],
 "every event stream with corrupt, duplicated, time-reversed and saturated events injected at any point",
 "Tests feed recorded, sane event files.",
 [BR],
 [("input sanitising","mypaint_brush_stroke_to")],
 [],["dab stream","return value"])

prop("C13", "Strokes are split for undo within bounded time, and only then",
 "The engine asks for a stroke split exactly when its timing rules say so: after more than one second of motion without having painted, when painting time exceeds 4 s + 3 s x pressure while pressure is not falling, or when a pause makes painting plus idle time exceed 0.9 s + 5 s x pressure, and on reset events. The reported painting time is the sum of the times of the painting events since the stroke was started.",
 ["histories","inputs","schedules"],
 "every event timing pattern (jitter, stalls, bursts, backward clocks) and every pattern of dabs that do or do not modify the surface",
 "Tests use one recorded event file at one timing.",
 [BR],
 [("stroke separation logic","mypaint_brush_stroke_to"),("counters","mypaint_brush_new_stroke, get_total_stroke_painting_time")],
 [("painting and idling time","accumulated since new_stroke",BR)],["return value of stroke_to","total painting time"])

prop("C14", "Symmetry paints every replica where its geometry says",
 "With symmetry active each dab is painted together with all replicas of its symmetry group (reflection lines through the centre at the given angle, n-fold rotations, or both), each at the transformed position and with correspondingly transformed orientation, each exactly once. A change of type, centre, angle or line count takes effect when the next atomic transaction begins and not earlier; switching symmetry on or off takes effect at once. If memory for more replicas is lacking the previous geometry stays in force and the change is made as soon as memory is available.",
 ["histories","configurations","inputs","fault_sequences"],
 "every history of symmetry changes, transactions, dabs and failed allocations",
 "Tests cover a few fixed transforms and never change state inside a transaction or under memory pressure.",
 ["mypaint-symmetry.c","mypaint-matrix.c",TS],
 [("pending/current state","mypaint_update_symmetry_state"),("replica dabs","draw_dab")],
 [("symmetry matrices","transform of each replica","mypaint-symmetry.c")],["canvas versus explicitly drawn replicas"])

prop("C15", "A damaged brush document never does damage",
 "Loading any byte string as a brush document never crashes, hangs or leaks, and leaves the brush usable with valid settings. Text that is not a version-3 brush document with a settings object makes loading fail and leaves all settings as they were. In an accepted document every well-formed entry is loaded exactly as written and settings it does not mention keep their values, whatever else in the document is damaged, unknown or of the wrong kind.",
 ["inputs","fault_sequences","histories"],
 "every document: valid ones torn, truncated, bit-flipped, spliced or with values replaced by other kinds at any point, loaded in any sequence",
 "Tests load about ten fixed bad files.",
 [BR,"mypaint-brush-settings.c","mypaint-mapping.c"],
 [("document validation","update_brush_from_json_object, update_brush_setting_from_json_object")],
 [("settings and mappings","what the brush paints with",BR)],["return value","get_base_value / get_mapping_*"])

prop("C16", "Picking up colour reports the canvas and does not alter it",
 "Picking up a colour never changes the canvas, sees every dab drawn before it, and returns components within 0..1; over an area of one uniform colour it returns that colour and alpha, within the rounding of its sampling mode, for any position, radius, random sampling stream and worker interleaving. The alpha returned always lies within the range of alphas present under the pickup, and so does the colour unless spectral mixing is asked for; where every pixel is sampled, the result is their average weighted by one minus the squared relative distance. get_alpha returns the alpha of such a pickup.",
 ["inputs","schedules","histories"],
 "every position/radius/mode, every canvas history, every outcome of the random sampling, every interleaving",
 "Sampling is random and order dependent; tests do not check it at all.",
 [TS,"brushmodes.c"],
 [("pending operations flushed before sampling","get_color"),("guaranteed minimum sampling","get_color_pixels_accumulate")],
 [],["get_color results","tile store contents"])

prop("C17", "Painting outside a fixed-size surface has no effect inside it",
 "On a fixed-size surface, whatever is painted (partly or wholly) outside its tiles never changes any pixel inside other than the ones the dab itself covers, is not remembered, and never accesses memory outside the surface. Inside, the surface behaves as an unbounded surface with the same initial content; its reported size never changes.",
 ["histories","inputs","configurations"],
 "every surface size and every history of dabs and pickups straddling or missing its edges",
 "Tests paint inside the surface.",
 ["mypaint-fixed-tiled-surface.c",TS],
 [("null tile for outside requests","mypaint-fixed-tiled-surface.c")],
 [("null tile","stand-in for outside tiles, always empty","mypaint-fixed-tiled-surface.c")],["tile buffers via tile requests","get_color"])

prop("C18", "GEGL-backed surfaces paint what any other surface paints",
 "Painting through the GEGL-backed surface leaves in its buffer exactly the pixels any other tile store would hold for the same dabs and transactions, whether the buffer holds the surface's own format or needs conversion. The buffer's extent covers every painted tile and never shrinks, whatever the interleaving of workers, and picking up colour changes nothing. Every tile borrowed from the buffer is given back, a buffer stays alive while the surface uses it, and replacing it or dropping the surface at any time leaks nothing.",
 ["schedules","histories","inputs"],
 "every dab/transaction history, buffer replacement at any point and every interleaving of workers",
 "The GEGL tests are not part of the reliable suite and use one schedule.",
 ["gegl/mypaint-gegl-surface.c",TS],
 [("tile access through buffer iterators","gegl/mypaint-gegl-surface.c tile_request_start/end"),("extent tracking","gegl/mypaint-gegl-surface.c")],
 [("extent rectangle","area known to be painted","gegl/mypaint-gegl-surface.c")],["contents and extent of the backing buffer"])

prop("C19", "Canvas pixels always stay valid and changes stay local",
 "Starting from a canvas of valid pixels (premultiplied, every channel at most full scale, no colour channel above alpha), any history of dabs with any parameters keeps every pixel valid, and changes no pixel farther from a dab's centre than its radius plus a pixel. Dabs that lock alpha, colorize or posterize leave alpha unchanged, and a fully erasing dab never increases alpha.",
 ["inputs","histories"],
 "every dab parameter combination including extremes, every accumulated canvas state",
 "Rounding escapes appear only after particular accumulations of dabs; tests draw a few.",
 [TS,"brushmodes.c"],
 [("fixed-point blending","brushmodes.c"),("dab mask","render_dab_mask")],
 [],["tile store contents"])

prop("C20", "Smudge buckets hold independent colours",
 "Each smudge bucket of a brush is independent: writing one through the interface or painting with it changes no other, reading it back returns what was written, and indexes outside 0..count-1 are refused without effect. The lowest and highest bucket used since the last reset are reported (-1 if none), and a reset empties every bucket that was used.",
 ["histories","inputs","configurations"],
 "every bucket count and every history of bucket writes, reads, smudging strokes and resets",
 "No test uses buckets.",
 [BR],
 [("bucket addressing","fetch_smudge_bucket, set/get_smudge_bucket_state"),("used range tracking and clearing","brush_reset")],
 [("smudge_buckets","one colour record per bucket",BR)],["get_smudge_bucket_state","dab colours"])

prop("C21", "Dab placement does not depend on how motion is cut into events",
 "For a brush without curves, slow tracking or noise moved along a straight line at constant speed and pressure, the dabs placed (their number and positions) are the same, up to rounding, whether the motion is delivered as one event or as any number of coalesced, delayed or split events covering the same path and time.",
 ["schedules","histories","inputs"],
 "every partition of a motion into events, for every spacing setting",
 "Tests replay one recorded event rate.",
 [BR],
 [("fractional dab carried between events","mypaint_brush_stroke_to, count_dabs_to")],
 [("partial dab progress","fraction of the next dab already travelled",BR)],["dab stream"])

prop("C22", "What a brush paints depends on its settings, not on how they were set",
 "Two brushes whose readable settings (base values and curves) are equal paint the same dabs for the same events, no matter in which order, how often or through which calls (single values, curve edits, defaults, documents) the settings were reached. Every settings query returns what was last set, including the number of inputs in use.",
 ["histories","inputs"],
 "every edit history (set, overwrite, clear and re-add curves, load documents, restore defaults) ending in the same settings",
 "Tests set each value once.",
 [BR,"mypaint-mapping.c","mypaint-brush-settings.c"],
 [("derived values recalculated on change","settings_base_values_have_changed"),("count of inputs in use","mypaint-mapping.c")],
 [("inputs_used","shortcut for constant settings","mypaint-mapping.c")],["dab stream","settings queries"])

prop("C23", "Every call comes back, with work in proportion to what it was asked",
 "Delivering an event finishes wherever on the canvas it happens, up to the largest coordinates that are accepted: the number of dabs it places is bounded by the distance and time it covers and the brush's dabs per radius and per second, also where single steps are below the resolution of the coordinates. Ending a transaction asks for each tile at most once for drawing, and only for tiles that drawing reached; a pickup asks for a bounded number of tiles.",
 ["inputs","histories","schedules"],
 "every event sequence, brush and place on the canvas; every transaction history",
 "Tests draw near the origin and with one brush; an endless loop shows only at coordinates where rounding swallows a step.",
 [BR,"mypaint-tiled-surface.c","operationqueue.c"],
 [("loop over the dabs of an event",BR),("dirty tiles are processed once","mypaint-tiled-surface.c"),("queue of dirty tiles","operationqueue.c")],
 [("mypaint_brush_stroke_to","interpolation loop",BR),("operation_queue_get_dirty_tiles","remove duplicates","operationqueue.c")],["dabs per event","tile requests per transaction"])

prop("C24", "Paint moves pixels towards the dab's colour and no further",
 "A dab moves each pixel's colour from what was there towards the dab's colour and no further: with plain (additive) mixing the colour left by a transaction lies between the old colour and the colours of the dabs drawn in it; with any mixing, painting a colour on the same colour leaves that colour, and a fully opaque hard dab leaves its own colour where it covers. Dabs that do not erase never lower alpha, colorizing dabs keep the brightness, and posterizing dabs move a channel by at most half a level. All up to fixed point rounding.",
 ["inputs","histories","schedules","fault_sequences"],
 "every transaction history, dab parameters and old content; serial and parallel processing; tiles lost to failed requests",
 "Tests compare a few strokes with stored pictures or only time them; overflow or a wrong weight shows only at particular values of colour, alpha and opacity.",
 ["brushmodes.c","mypaint-tiled-surface.c","helpers.c"],
 [("blend modes draw_dab_pixels_BlendMode_*","brushmodes.c"),("choice and weight of the blend modes of a dab (process_op)","mypaint-tiled-surface.c"),("spectral conversion rgb_to_spectral","helpers.c")],
 [("tile pixels","premultiplied 15 bit colour and alpha","brushmodes.c")],["pixels of a transaction","alpha of pixels"])

prop("C25", "The inputs of the brush dynamics describe the pen",
 "At every dab the inputs that the response curves see describe the pen's motion: they stay within their documented limits; pressure (times its gain), tilt and barrel rotation lie between the values of the events around the dab, as far on their way as the pen is on its own (angles along the shorter arc); the direction inputs are the direction of the motion relative to the view's rotation, and the attack angle is the difference of tilt and motion directions; the speed inputs follow the speed in view pixels; the stroke input starts at 0 when the pen is pressed beyond the threshold and grows with the distance in radii; the grid map inputs are the position wrapped at the scaled grid; zoom and base radius inputs are logarithms of what was given; the random input is in 0..1 and new for every dab; and the custom input moves towards its setting. After a pause or reset no input carries over from the stroke before it.",
 ["inputs","histories","fault_sequences"],
 "every history of pen events, pauses and resets, every view zoom and rotation and every setting of the inputs",
 "Tests replay one recorded stroke and look at the picture; wrong inputs need particular angles, pauses, wrap-arounds or view rotations to show.",
 ["mypaint-brush.c","helpers.c"],
 [("computation of the inputs (update_states_and_setting_values)","mypaint-brush.c"),("event handling and splitting of steps (mypaint_brush_stroke_to)","mypaint-brush.c"),("angle arithmetic smallest_angular_difference, mod_arith","helpers.c")],
 [("brush states","what the brush remembers of the pen between dabs","mypaint-brush.c")],["dabs","brush states"])

prop("C26", "Dabs come out where and as the settings say",
 "A dab lies where the pen is plus the offset that the settings ask for (fixed, angular relative to direction, tilt or view, mirrored; limited to 3240 pixels), by speed no further than the speed gives, with random offsets bounded by their deviation and only where asked; with slow tracking the brush covers, of its way to the pen, the share that the time passed and the setting give, each dab follows the brush in the same way per dab, and tracking noise stays within its deviation around the pen. Pixel snapping, opacity and its linearization, the eraser, aspect ratio and angle, hardness and softness, and the colour changes reach the surface as set; a radius changed at random keeps the amount of paint; the radius stays within 0.2 to 1000 pixels and opacity within 0 to 1. A setting that is not set leaves the dabs alone.",
 ["inputs","histories"],
 "every combination of settings of a feature with response curves and every history of pen events, view rotations and zooms",
 "Tests paint a few fixed brushes; most of these settings are zero in them, and the effect of a wrong sign, angle or clamp depends on values that they never use.",
 ["mypaint-brush.c","rng-double.c","helpers.c"],
 [("preparing a dab (prepare_and_draw_dab)","mypaint-brush.c"),("directional offsets","mypaint-brush.c"),("slow tracking and tracking noise","mypaint-brush.c"),("gaussian noise (rand_gauss)","helpers.c")],
 [("actual position of the brush","what smoothing has made of the pen position","mypaint-brush.c")],["dabs"])

prop("C27", "Smudging paints with the colours that were picked up",
 "A smudging brush picks up a colour for its first dab after a reset and then as often as the smudge length and its multiplier say, at the dab, with the dab's radius times the smudge radius, and never when it does not smudge or its length is 1. The smudge colour of a bucket moves from what it was to what was picked up by the smudge length; a dab's colour is the smudge colour and the brush colour mixed by the smudge setting: exactly one or the other at the ends, between them otherwise (pigment mixing up to its nonlinearity), and its target alpha is the mix of full alpha and the smudge colour's. Where the picked up alpha violates the smudge transparency limit no dab is drawn and no colour is taken.",
 ["inputs","histories","fault_sequences"],
 "every history of pen events, pauses and resets, every set of smudge settings and every sequence of colours and alphas that pickups may report",
 "Tests smudge once with one fixed brush and only time it; wrong weights, stale colours and refused pickups need particular histories of the canvas under the brush.",
 ["mypaint-brush.c","helpers.c"],
 [("pickup and update of the smudge colour (update_smudge_color)","mypaint-brush.c"),("mixing into the dab (apply_smudge)","mypaint-brush.c"),("colour mixing (mix_colors)","helpers.c")],
 [("smudge colour","premultiplied or plain colour, alpha and age per bucket","mypaint-brush.c")],["dabs","pickups"])

prop("C28", "A dab marks exactly its ellipse, wherever it lies",
 "Each dab marks the pixels inside the ellipse given by its position, radius, aspect ratio and angle, with full opacity at the centre falling off to the edge in the two straight lines (over the squared distance) that its hardness sets, scaled by softness and opacity, and no pixel beyond a pixel's width outside it (radius below 3: antialiased, so only approximately this shape). There each blend mode does what it says to colour and alpha: normal and erasing cover, alpha lock keeps alpha, colorize takes hue and saturation at the pixel's luminance, posterize rounds to the nearest level, pigment mixing takes the weighted geometric mean of the spectra. The mark is the same wherever the dab lies on the canvas: moving the work and the canvas by whole pixels moves the result and changes nothing else, whatever tiles it falls on, in whatever transactions it is drawn and on whatever threads it is rendered.",
 ["inputs","histories","schedules"],
 "every dab, canvas content, position relative to the tiles, division into transactions and schedule of the rendering threads",
 "Tests compare whole strokes to stored images of an older version at one place on the canvas, within a tolerance, or only time them.",
 [TS,"brushmodes.c"],
 [("dab masks (render_dab_mask)",TS),("blend modes (draw_dab_pixels_BlendMode_*)","brushmodes.c"),("tiles of a dab (draw_dab_internal)",TS)],
 [("canvas pixels","15-bit premultiplied RGBA",TS)],["canvas pixels"])

prop("C90", "Response curves evaluate to the documented piecewise line",
 "A setting's value is its base value plus, for every input, the piecewise linear curve through its control points evaluated at that input.",
 ["inputs"], "every curve and input value",
 "Tests evaluate a few curves at a few points.",
 ["mypaint-mapping.c"], [("segment search and interpolation","mypaint_mapping_calculate")])
prop("C91", "Colour space conversions are accurate inverses",
 "Converting a colour between RGB and HSV, HSL, HCY or spectral form and back returns the colour, within rounding, for every colour.",
 ["inputs"], "every colour",
 "Tests sample few colours.",
 ["helpers.c"], [("conversion functions","helpers.c")])
prop("C92", "Setting tables agree with the settings definition",
 "Every setting, input and state has a unique name that maps back to its number, and limits with minimum <= default <= maximum.",
 ["configurations"], "every entry of the generated tables",
 "Tests look up a few names.",
 ["mypaint-brush-settings.c","generate.py","brushsettings.json"], [("generated tables","generate.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
