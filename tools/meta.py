REAL = ["all of libmypaint's C sources compiled from /repo (brush engine, tiled surface, operation queue, fifo, tile map, blend modes, symmetry, mapping, settings, random generator)", "json-c"]
STUB = ["OpenMP runtime (libgomp) replaced by the simulator's scheduler", "malloc/free seen by the library replaced by the simulator's allocator", "rand() replaced by a seeded stream"]
SURF = ["tile store behind the tiled surface (the simulator's)"]
REC = ["drawing surface behind the brush engine (records dabs, deterministic colour field)"]
def P(variants, rule, state, stub, **kw):
    d = dict(variants=variants, rule=rule, state=state, real=REAL, stub=STUB + stub); d.update(kw); return d
PROPS = {
 "C01": P("r", "A run draws seeded dabs, pickups and symmetry changes once with one worker and once with 2..16 simulated workers under a seeded schedule and compares canvas, reports and pickups; non-trivial when two workers held tiles at the same time.", "prefixes of the worker switch sequence", SURF, need=["probe_two_tiles_out_at_once"]),
 "C02": P("ra", "A run draws a seeded history as called, again one dab per transaction, and again moved by whole pixels; non-trivial when more than one tile write happened.", "(tile index, flush count) pairs and merged-write counts", SURF, need=["probe_translated", "probe_writes_merged", "probe_solid_pixels"]),
 "C03": P("ra", "A run draws seeded transactions (symmetry, pickups, failed allocations at their start) and compares the returned rectangles with the pixels that changed; non-trivial when a pixel changed.", "(rectangles reported, room) pairs", SURF, need=["probe_changed_pixels_covered", "fault_alloc_failed"]),
 "C04": P("ra", "A run drives a store that checks the request protocol with seeded dabs, pickups, symmetry or brush strokes, failing requests and 1..40 simulated processors; non-trivial when tiles were requested.", "request/failure count combinations", SURF, need=["fault_tile_write_failed", "fault_tile_read_failed", "tile_requests_concurrent", "probe_more_than_16_processors"]),
 "C05": P("ra", "A run draws seeded transactions and pickups on a store whose requests fail at seeded points and compares each tile with the contents possible when each failed request loses or delays exactly the work queued for that tile; non-trivial when a write request failed.", "(tile, failures on it) and failure counts", SURF, need=["fault_tile_write_failed", "fault_tile_read_failed", "probe_tiles_compared"]),
 "C06": P("ra", "A run makes seeded allocations fail inside seeded calls (construction, drawing, pickups, transactions, loading) and compares every tile with the subsets of dabs allowed; non-trivial when an allocation failed.", "(allocation attempts, calls that met a failure)", SURF, need=["fault_alloc_failed", "probe_brush_null", "probe_fixed_null", "probe_dabs_met_failure", "probe_surface_without_queue"]),
 "C07": P("ra", "A run works on up to four brushes/surfaces, drops all references at a seeded point and accounts for every block; or repeats the same work and compares the memory held; non-trivial when something was drawn or loaded.", "(kinds of object, open transactions, blocks held) at teardown", SURF, need=["probe_cycles", "probe_torn_down_mid_transaction", "fault_tile_write_failed"]),
 "C08": P("r", "A run lets 2..4 application threads, each with its own brush and surface (simulated tile store or fixed-size), work under a seeded schedule after each worked alone; non-trivial when two threads drew and the scheduler switched between them.", "prefixes of the thread switch sequence", SURF, need=["probe_thread_switches", "probe_threads"], assumptions=["rand() gives each thread its own stream"]),
 "C09": P("ra", "A run does the same seeded work on fresh instances up to four times, with different heap and stack garbage, clocks, other instances at work in between; non-trivial when more than two drawing calls were made.", "hashes of the accumulated results", SURF, need=["fault_garbage_memory", "probe_other_instance_ops"], assumptions=["the process-wide rand() stream is an input"]),
 "C10": P("ra", "A run paints a seeded stroke (also with noise, bucket and state writes), resets by request or time gap, and paints a second seeded stroke next to a new brush; non-trivial when something was painted before and after.", "quantised (pressure, partial dab, radius, position) states", REC, need=["probe_explicit_reset", "fault_clock_jump_reset", "probe_dabs_after_reset", "probe_skip_pending"]),
 "C11": P("ra", "A run paints a seeded stroke, kills the brush at seeded event boundaries and continues in a new one from the recorded states and buckets, next to the brush that never died; non-trivial when a brush was restarted and dabs followed.", "quantised (pressure, partial dab, radius, position) states", REC, need=["fault_crash_restart", "probe_dabs_after_restart"], assumptions=["no curves on the grid map scale settings (their previous value is not a readable state)"]),
 "C12": P("ra", "A run delivers a seeded stroke with insane events, backward and repeated timestamps and negative pressures, next to the same stroke without them; non-trivial when such an event was delivered and dabs were drawn.", "quantised (pressure, partial dab, radius, position) states", REC, need=["fault_insane_event", "fault_clock_backwards", "fault_clock_duplicate", "probe_dabs"]),
 "C13": P("ra", "A run delivers seeded events (jitter, stalls, bursts, backward clocks) to a surface that reports seeded dabs as unpainted, next to a model of the timing rules; non-trivial when strokes were split more than once and not always.", "quantised (painting time, idle time, pressure)", REC, need=["probe_split_reset", "probe_split_idle", "probe_split_painting", "probe_split_pause", "probe_no_split_expected", "fault_clock_backwards", "fault_input_stall"]),
 "C20": P("ra", "A run writes, reads and paints with seeded buckets next to a one-bucket brush that is given the bucket's contents; non-trivial when painting changed a bucket.", "(bucket in use, buckets used, bucket count)", REC, need=["probe_bucket_painted", "probe_bucket_switched", "probe_write_refused", "probe_resets"]),
 "C21": P("ra", "A run delivers a seeded polyline in one event per segment, and again cut into up to 400 events at seeded points (even, random, bursts); non-trivial when more than two dabs were placed and the motion was cut.", "(dabs in segment, number of cuts)", REC, need=["fault_events_coalesced_or_split", "probe_dabs"]),
 "C22": P("ra", "A run edits a brush through a seeded history (values, curves, points, defaults, documents) next to a brush given the same settings once, checks every query against a model, and lets both paint seeded strokes; non-trivial when edits were made and dabs placed.", "quantised (pressure, partial dab, radius, position) states", REC, need=["probe_documents_loaded", "probe_edits", "probe_dabs"]),
 "C23": P("ra", "A run delivers seeded events at seeded places up to the end of the accepted coordinates and counts the dabs of each, or draws seeded transactions and counts the tile requests; non-trivial when dabs were placed or tiles visited.", "(magnitude of the position, dabs in the event)", REC + SURF, need=["probe_steps_below_resolution", "probe_transactions"]),
 "C26": P("ra", "A run delivers one seeded motion to a plain brush and to one that has one group of settings at seeded values (offsets, noise, snapping, opacity, shape, tracking, colour changes, some of them following pressure) and compares each pair of dabs; non-trivial when more than three dabs were compared.", "(group of settings, offset, radius)", REC, need=["probe_offset_dabs", "probe_mirrored_offsets", "probe_noisy_dabs", "probe_snapped_dabs", "probe_opacity_dabs", "probe_shaped_dabs", "probe_tracked_dabs", "probe_lagging_brush", "probe_coloured_dabs"]),
 "C27": P("ra", "A run paints one seeded motion with smudging (settings constant or following pressure, one or several buckets, plain, additive or pigment mixing) on a surface that scripts what pickups report, transparent ones included, and compares every pickup and dab with a model of the smudge colours; non-trivial when more than three smudged dabs were compared.", "(mixing, buckets, alpha and age of the smudge colour)", REC, need=["probe_smudged_plain", "probe_smudged_additive", "probe_smudged_pigment", "probe_pickups", "probe_pickups_saved", "probe_pickups_refused", "probe_only_erased"]),
 "C28": P("ra", "A run draws seeded transactions of dabs of every shape and blend mode (pickups between them, worker threads under the scheduler), compares every pixel of every touched tile with a model of dabs and blend modes in double precision, and with the same work done some whole pixels away over equally shifted content; dabs on the half-pixel grid are also painted alone and turned upside down; non-trivial when modelled pixels were compared.", "(alpha and red before and after, dabs on the pixel, blend modes)", SURF, need=["probe_modelled_channels", "probe_moved_pixels", "probe_turned_dabs"], assumptions=["the inside of dabs of radius below 3 (antialiased by an approximation) is judged by translation and symmetry only", "pigment mixing of fully opaque brush colours only, through the library's own spectra"]),
 "C25": P("ra", "A run moves the pen along a seeded path with seeded tilt, twist, pressure, zoom, rotation, stalls and resets, with five inputs carried out of the engine by settings that reach the surface untouched; non-trivial when at least five dabs were placed.", "(inputs watched, their quantised values)", REC, need=["probe_known_directions", "probe_turning_pen", "probe_interpolated_inputs", "probe_strokes_begun", "probe_known_speeds", "probe_pressed_after_stall"]),
 "C24": P("ra", "A run draws seeded transactions of dabs of one kind (mixing, the canvas's own colour, opaque cover, colorizing, posterizing) with pickups, symmetry, workers and failing tile requests, and judges each pixel before and after each transaction; non-trivial when a judged pixel changed.", "(kind, quantised old and new pixel)", SURF, need=["probe_mixed_pixels", "probe_same_colour_pixels", "probe_covered_pixels", "probe_colorized_pixels", "probe_posterized_pixels", "fault_tile_write_failed"]),
 "C14": P("ra", "A run draws seeded soft dabs in seeded transactions with seeded symmetry changes inside and between them and failed allocations at transaction starts, next to a surface without symmetry on which the replicas of the group are drawn one by one; non-trivial when replicas were drawn.", "(symmetry type, line count, angle) combinations dabs were drawn with", SURF, need=["probe_replicas", "probe_pending_inside_transaction", "probe_toggled_inside_transaction", "probe_transactions_short_of_memory", "fault_alloc_failed"], assumptions=["geometry is compared through soft dabs within 220/32768 per channel"]),
 "C15": P("ra", "A run loads a seeded sequence of brush documents, intact or hit by storage faults (torn, bit flips, lost / doubled / overwritten blocks, halves of two documents, values of another kind), compares every setting with what a reader of well-formed entries expects, and paints in between; non-trivial when a document was loaded.", "(documents accepted, refused, hash of the settings)", REC, need=["probe_accepted", "probe_refused", "probe_wellformed_entries", "probe_damaged_entries_in_accepted", "probe_painted_with_loaded_settings"] + ["fault_doc_" + k for k in "torn bitflip mixed lost_block doubled_block overwritten_block bad_digit bad_name nested value_replaced".split()], assumptions=["what text is JSON is decided by json-c"]),
 "C16": P("ra", "A run draws seeded dabs and picks up colour at seeded places, radii and modes with seeded and adversarial sampling streams and 1..6 workers, on canvases of one colour or of noise, and compares the result with the canvas of the same history without pickups; non-trivial when a colour was picked up.", "quantised (alpha range, alpha returned, mode, stream)", SURF, need=["probe_pickups", "probe_uniform_areas", "probe_uniform_with_pending_dabs", "probe_alpha_ranges", "probe_parallel_pickups", "probe_repeated_after_transaction", "probe_huge_pickups"]),
 "C17": P("ra", "A run paints, picks up and writes tiles at seeded places inside, across and outside the edges of a fixed-size surface of seeded size, next to a simulated store of the same content that is empty outside; non-trivial when dabs reached inside and outside.", "(surface size, dab position) combinations", SURF, need=["probe_dabs_inside", "probe_dabs_outside", "probe_dabs_straddling", "probe_pickups", "probe_outside_tile_written"]),
 "C18": P("g", "A run draws seeded dabs, pickups and symmetry changes on the real GEGL surface with 1..8 simulated workers, replacing its buffer (own, given away, kept, foreign tile size, float format) at seeded points, and compares buffer content, extent, damage reports and pickups with a plain tiled surface given the same calls; non-trivial when dabs were drawn.", "(buffer kind, extent) combinations", [], real=REAL + ["gegl/mypaint-gegl-surface.c", "GEGL 0.4, babl and GLib (installed libraries, one thread of their own, no plug-ins)"], need=["probe_pickups", "probe_readonly_requests", "probe_concurrent_requests", "probe_extent_changes", "probe_buffer_swaps", "fault_alloc_failed"]),
 "C19": P("ra", "A run draws seeded dabs (also with out-of-range parameters) in seeded transactions on a canvas of valid pixels; non-trivial when at least one pixel changed.", "quantised (old pixel, new pixel) pairs", SURF, need=["fault_none"][:0]),
}
ORACLE = {
 "C01": "the same history rendered by one thread, plus a data race detector",
 "C02": "the same history drawn one dab per transaction and on a moved tile grid",
 "C03": "the pixels that actually changed",
 "C04": "a tile store that checks the request protocol",
 "C05": "the canvases possible when each failed request loses or delays exactly its own work",
 "C06": "the subsets of dabs possible after an allocation failure, and a heap account",
 "C07": "a heap account at seeded teardown points",
 "C08": "each thread's work done alone, plus a data race detector",
 "C09": "the same calls on fresh instances in other environments",
 "C10": "a new brush",
 "C11": "a brush that never crashed",
 "C12": "the same stroke without the faulty events",
 "C13": "a model of the timing rules",
 "C14": "replicas drawn one by one without symmetry",
 "C15": "a reference reader of well-formed entries",
 "C16": "the canvas of the same history without pickups",
 "C17": "a simulated unbounded store that is empty outside",
 "C18": "a plain tiled surface given the same calls, and GEGL's own view of the buffer",
 "C19": "pixel validity and locality invariants",
 "C20": "one-bucket brushes given the bucket's contents",
 "C21": "the same motion delivered in one event",
 "C22": "a settings model and a brush given the settings once",
 "C26": "a plain twin brush with the same motion plus what the settings ask for (offset vectors, snapping, opacity and colour formulas, bounds of noise)",
 "C27": "a model of the smudge colour in double precision, fed with what the pickups reported (exact for plain and additive mixing, an interval for pigment mixing)",
 "C28": "a model of dab masks and blend modes in double precision, the same work moved by whole pixels, and mirror images of single dabs",
 "C25": "model of the pen's motion (position, tilt, direction, speed, stroke length, grid) against the values of the inputs",
 "C24": "the range of colours between the pixel's old colour and the colours of the dabs drawn since, and the dabs' own parameters",
 "C23": "bounds on dabs and tile requests computed from the distance, the time and the dabs drawn",
}
NOT_APPLICABLE = {

 "C90": "a pure function of its arguments: no scheduling, time, I/O, fault or history for a simulation to vary (its use by the engine is exercised inside C10-C13, C21 and C22, where it is not the thing decided)",
 "C91": "pure functions of their arguments: no scheduling, time, I/O, fault or history for a simulation to vary",
 "C92": "static tables generated at build time: nothing happens at run time that a simulation could vary",
}
