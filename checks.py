"""The checks: for each property the runs that decide it and what they observe."""
EXH = "Monitored executions of the real code; no proof beyond the cases run."
CHECKS = {}
def check(pid, technique, rule, runs, note=EXH, **k):
    CHECKS[pid] = dict(technique=technique, rule=rule, runs=runs, note=note, **k)

check("C01", "generated literals against an independent reader, under ASan/UBSan",
      "Literals are generated (limits, mutations of valid ones, random numbers, random text) and read by both readers; distinct by type and text.",
      [dict(target="c_scalars", limit=250)])
check("C02", "relational oracle over generated operand pairs and lists, under ASan/UBSan",
      "Operand pairs near and far, infinite and equal, under all six rules; distinct by operands.",
      [dict(target="c_rule")])
check("C03", "table oracle over names and near misses, under ASan/UBSan",
      "Every standard name of every enumeration plus mutated and foreign names; distinct by type and text.",
      [dict(target="c_enum")])
check("C12", "written reports read back by expat and compared with what was recorded, under ASan/UBSan",
      "Random sequences of recorded suites, cases, outcomes and texts in both report writers; distinct by recorded sequence.",
      [dict(target="c_junit")])
check("C15", "invocation log of jobs against a model of the job list, under ASan/UBSan",
      "Random sequences of appending jobs of all kinds and updating both phases; distinct by sequence.",
      [dict(target="c_job")])
check("C20", "visited cells against exact segment geometry, under ASan/UBSan",
      "Segments between grid-aligned, near-border and random points; distinct by endpoints.",
      [dict(target="c_grid")])
check("C28", "reported collisions against a per-entity model, under ASan/UBSan",
      "Random contact histories of up to twelve entities; distinct by history.",
      [dict(target="c_ego")])
check("C29", "range, reproducibility and coverage monitors over generated sequences, under ASan/UBSan",
      "Random ranges, seeds and range changes; distinct by seed and ranges.",
      [dict(target="c_random")])
check("C13", "event log of submissions, executions and observations checked for order, exactly-once and truthful emptiness, under ThreadSanitizer and AddressSanitizer",
      "Random submitters, observers, throwing tasks and early destruction; distinct by configuration and observed execution order.",
      [dict(target="c_taskqueue_tsan", tsan=True), dict(target="c_taskqueue_asan")])
check("C14", "status records compared with what the threads did, under ThreadSanitizer and AddressSanitizer",
      "Random threads registering, reporting, changing the threshold and exiting, records judged in quiet moments; programs ending while the watchdog waits; distinct by round.",
      [dict(target="c_status_tsan", tsan=True), dict(target="c_status_asan")])
check("C11", "arguments, ends and output recorded by the started program compared with the call, under ASan/UBSan",
      "Random argument vectors, child outcomes, missing programs, signals while waiting, concurrent callers and captured output; distinct by command.",
      [dict(target="c_exec", needs=["c11_child"])])
check("C32", "handle histories against a model of ownership and type, under ASan/UBSan",
      "Random sequences of making, copying, moving, swapping, casting and dropping handles; distinct by sequence.",
      [dict(target="c_object")])
check("C16", "reported roots against residuals and constructed root sets in long double, under ASan/UBSan",
      "Polynomials built from chosen roots (multiple, close, spread over magnitudes) and from random coefficients; distinct by coefficients.",
      [dict(target="c_solver")])
check("C17", "lengths, directions, crossings and projections recomputed from the curve's own points, under ASan/UBSan",
      "Random control points (straight, gentle, sharp, axis-parallel, repeated, of two points, far from the origin) and polylines; distinct by control points.",
      [dict(target="c_curve")])
check("C18", "rotations, poses and vectors against rotation matrices computed in long double, under ASan/UBSan",
      "Random and special Euler angles, quaternions (also off by rounding, equal, opposite), poses near and far, vectors over twelve magnitudes; distinct by operands.",
      [dict(target="c_pose")])
check("C19", "distances, overlaps, crossings and hulls against direct computation in long double, under ASan/UBSan",
      "Random bounding boxes (near, nested, axis-parallel, far from the origin), segments and polygons with random or integer corners; distinct by shapes.",
      [dict(target="c_shapes")])
check("C22", "every step judged by limits, command log, gear and the documented motion in long double, under ASan/UBSan",
      "Random models, parameters, initial states and command histories with held, extreme and switching commands; distinct by parameters and history.",
      [dict(target="c_vehicle")])
check("C26", "every message kind taken through wire form, packet and back, fields compared by name on the wire and after arrival, under ASan/UBSan",
      "Random contents (limits, infinities, empty and long texts, dirty receivers) of every message kind; every value of the enumerations, valid or not; distinct by kind and draw.",
      [dict(target="c_message")])
check("C27", "logs of both ends of real loopback connections compared for content, kind, order and exactly-once, under ASan/UBSan",
      "Random requests of all kinds from one to three concurrent clients, with slow handlers, late servers, closed clients and shutdown; distinct by configuration and served order.",
      [dict(target="c_transport", limit=90)])
check("C07", "states, counts and triggers published after every frame compared with a model of the life cycle, under ASan/UBSan",
      "Random storyboards (stop triggers, repeated groups and events, nested stories, conditions on other elements' states and parameters) run frame by frame in the interpreter node; distinct by the transitions reached.",
      [dict(target="c_story", args=["--part", "c07"], limit=400, shards=4, thorough_shards=8)])
check("C08", "states of the events of a maneuver after every frame compared with a model of priorities, under ASan/UBSan",
      "Random maneuvers of two to six events with parallel, skip and overwriting priorities, repeated executions and overlapping actions; distinct by the transitions reached.",
      [dict(target="c_story", args=["--part", "c08"], limit=400, shards=4, thorough_shards=8)])
check("C09", "values of conditions, groups and triggers after every frame compared with values computed from the signals given to the world, under ASan/UBSan",
      "Random triggers of up to four groups of up to three conditions on signals, time, parameters and element states with every edge and delays; distinct by the transitions reached.",
      [dict(target="c_story", args=["--part", "c09"], limit=400, shards=4, thorough_shards=8)])
check("C04", "expressions, references and substitutions evaluated by the real reader and by an evaluator of the harness, under ASan/UBSan",
      "Random well and badly typed expressions over parameters of every type in nested scopes, plain references, substitutions and hostile strings; distinct by text and scope.",
      [dict(target="c_expr", limit=300, shards=2, thorough_shards=8)])
check("C05", "every lookup compared with a walk over a model of the scopes, under ASan/UBSan",
      "Random scope trees with named and unnamed scopes, siblings and repeated names; plain, qualified, absolute and hostile names from every scope; distinct by tree and name.",
      [dict(target="c_scope", limit=300, shards=2, thorough_shards=8)])
check("C10", "values of all visible parameters after every declaration and action compared with a model, conditions judged on them, under ASan/UBSan",
      "Random declarations of every type with constraint groups, shadowing scopes, set and modify actions at and beyond the limits of the types, conditions under every rule; distinct by action and value.",
      [dict(target="c_param", limit=300, shards=2, thorough_shards=8)])
check("C21", "every cell of every finished grid judged by the plane geometry of obstacles and shadows, under ASan/UBSan",
      "Random grids, sensor poses and boxes (tilted, thin, larger than the grid, around the sensor, on cell borders), builders reused and obstacles permuted, directly and through the sensor with detection, range and period; distinct by world.",
      [dict(target="c_occ", limit=300, shards=2, thorough_shards=8)])
check("C23", "every planned step judged against the constraints and predictions (distance, duration, time-planned constraints) compared with stepping, under ASan/UBSan",
      "Random constraints, speeds, targets (also beyond the limit), accelerations and step sizes; distinct by case.",
      [dict(target="c_speed", limit=300, shards=2, thorough_shards=8)])
check("C24", "every simulated step judged against the trajectory, its times and the limits; trajectories that can be followed have to be, under ASan/UBSan",
      "Random trajectories with timed and untimed waypoints, limits, step sizes, lanes and starts; feasible trajectories that have to finish; invalid states and trajectories; distinct by case.",
      [dict(target="c_follow", limit=400, shards=6, thorough_shards=8, thorough_limit=3000)])
check("C25", "bulbs, description texts, wire forms, published messages, predictions and markers compared with a model of the lights, under ASan/UBSan",
      "Every combination of names, random and invalid state lists; random histories of setting, adding, clearing, detecting, mirroring and predicting through ways and regulatory elements of random maps; distinct by text or history.",
      [dict(target="c_lights", limit=300, shards=2, thorough_shards=8)])
check("C06", "documents drawn from the standard's schema, changed once and read by the real reader; verdicts judged by the schema, hostile documents by their diagnosis, under ASan/UBSan",
      "Fresh schema-valid documents with every supported element, each read again after single changes (attribute or child removed, repeated, doubled alternative, value of another type, reordered); reader functions on random nodes; mutated trees and bytes; distinct by document, change or message.",
      [dict(target="c_doc", limit=400, shards=6, thorough_shards=8, thorough_limit=3000)])
check("C31", "the report file compared after every life-cycle operation with the verdict known from the scenario and the injected faults, under ASan/UBSan",
      "Random orders of configure, activate, update, deactivate, cleanup and shutdown over random stories that succeed, fail, throw or never end, with faults of eleven kinds at construction, requests, updates and closing; distinct by order and outcome.",
      [dict(target="c_verdict", limit=300, shards=4, thorough_shards=8)])
