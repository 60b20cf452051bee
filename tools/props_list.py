# ---------------------------------------------------------------- OpenSCENARIO language front end
p("C01", "Scalar literals mean what they spell, and nothing else is accepted",
  "Every boolean, integer, unsigned and floating-point literal written in a scenario is read as the value it spells (including signed infinities), a written-out value reads back as the same value, and arithmetic on scenario numbers gives the mathematical result where that is in the range of the type. Any text that is not a literal of the type, has trailing garbage, or lies outside the type's range is refused with a syntax error that names the offending text and type, never silently turned into another value.",
  ["inputs"], "All strings offered for a scalar attribute, all values of each scalar type.",
  "test_double samples a few dozen literals of one type; the other types, the range limits and the rejected language have no test.",
  [f"{I}/src/syntax/double.cpp", f"{I}/src/syntax/integer.cpp", f"{I}/src/syntax/unsigned_integer.cpp", f"{I}/src/syntax/unsigned_short.cpp", f"{I}/src/syntax/boolean.cpp"],
  [("string constructors of Double/Integer/UnsignedInteger/UnsignedShort/Boolean", f"{I}/src/syntax"), ("stream output operators", f"{I}/src/syntax")],
  ["constructor result or exception", "operator<< text"])
p("C02", "Comparison rules in conditions tell the truth",
  "A comparison rule evaluated on two numbers answers as the mathematical relation it names: the three orderings are mutually exclusive, the or-equal rules are the union of their parts, not-equal is the negation of equal, and swapping the operands mirrors the answer, with equality decided up to one unit of rounding. Comparing lists of numbers under a rule gives, element by element, the answer of comparing the numbers.",
  ["inputs"], "All pairs of finite numbers, infinities, nearly-equal neighbours, and all six rules.",
  "No existing test evaluates a rule; equality tolerance, infinities and the relations between rules are not sampled at all.",
  [f"{I}/src/syntax/rule.cpp", f"{I}/include/openscenario_interpreter/syntax/rule.hpp", f"{I}/include/openscenario_interpreter/functional/equal_to.hpp"],
  [("Rule call operator", f"{I}/include/openscenario_interpreter/syntax/rule.hpp"), ("equal_to<double>", f"{I}/include/openscenario_interpreter/functional/equal_to.hpp")],
  ["Rule::operator()"])
p("C03", "Enumerated attribute values are exactly the standard's names",
  "Every enumerated attribute accepts exactly the names the scenario standard gives it (plus the documented aliases of older revisions) and yields the value of that name, and printing a value gives back a name that is read as the same value. A name the standard has but the simulator does not implement is refused as not yet supported, and any other text is refused as an unexpected value; both refusals are syntax errors that quote the text. An empty attribute stands for the type's default value.",
  ["inputs"], "All enumerated types of the interpreter, all strings including near misses in case, spelling and whitespace.",
  "test_priority covers a handful of names of one type; two dozen types have no test.",
  [f"{I}/src/syntax/priority.cpp", f"{I}/src/syntax/rule.cpp", f"{I}/src/syntax/storyboard_element_state.cpp", f"{I}/src/syntax/parameter_type.cpp", f"{I}/src/syntax/routing_algorithm.cpp", f"{I}/src/syntax/precipitation_type.cpp"],
  [("operator>> of each enumeration", f"{I}/src/syntax")],
  ["stream extraction result or exception", "stream insertion text"])
p("C04", "Attribute expressions and parameter references evaluate correctly",
  "An attribute written as an expression evaluates to the value ordinary arithmetic and logic precedence gives it, with every parameter reference replaced by the value of the innermost visible declaration; a plain reference yields the parameter's value and text substitutions are replaced by what they name. A reference that cannot be resolved or an expression that is malformed, ill-typed, divides by zero, has no finite result or overflows is reported as an error and never yields a made-up value or undefined behaviour.",
  ["inputs", "programs"], "All expressions of the grammar over all declared parameters, all attribute strings, well-formed or not.",
  "No existing test evaluates an expression offline; precedence, nesting, errors and numeric limits are an infinite input space.",
  [f"{I}/include/openscenario_interpreter/reader/evaluate.hpp", f"{I}/include/openscenario_interpreter/reader/attribute.hpp", f"{I}/src/reader/evaluate.cpp", f"{I}/src/reader/attribute.cpp", f"{I}/src/scope.cpp"],
  [("expression grammar and evaluator", f"{I}/src/reader/evaluate.cpp"), ("readAttribute substitution", f"{I}/src/reader/attribute.cpp")],
  ["evaluate()", "readAttribute<T>() result or exception"])
p("C05", "Names resolve to the declaration the scenario author can see",
  "A name used in a scenario denotes the innermost enclosing declaration with that name, a qualified name walks the named scopes it spells, and an absolute name starts at the outermost scope. Unnamed scopes are transparent: what is declared in them counts as declared where they are. A name that matches nothing, or matches several equally near declarations, is reported as an error; no lookup of any string ends in undefined behaviour.",
  ["inputs", "programs"], "All trees of named and unnamed scopes, all declarations in them and all reference strings.",
  "No existing test builds scopes; shadowing, ambiguity and malformed qualified names are combinatorial.",
  [f"{I}/include/openscenario_interpreter/name.hpp", f"{I}/include/openscenario_interpreter/scope.hpp", f"{I}/src/scope.cpp"],
  [("EnvironmentFrame::find/resolve", f"{I}/src/scope.cpp"), ("Prefixed name parser", f"{I}/include/openscenario_interpreter/name.hpp")],
  ["Scope::ref / find result or exception"])
p("C06", "Malformed scenario documents are refused with a diagnosis",
  "A document that follows the standard's schema and uses only supported parts is accepted. A missing required attribute or child element, a child repeated beyond a bounded number, more or fewer than one of the alternatives of a choice, and a value that is not of the attribute's type are refused with an error that names them (elements and attributes the standard does not know at that place are ignored). Whatever bytes are offered as a scenario, reading them ends in a scenario or such an error, never in a crash, a hang or undefined behaviour, and an accepted document yields every child in document order.",
  ["inputs"], "All element trees and attribute sets, obtained by mutating the repository's own scenarios and generating fresh ones.",
  "No existing test reads a document; the space of malformed documents is unbounded.",
  [f"{I}/include/openscenario_interpreter/reader/element.hpp", f"{I}/include/openscenario_interpreter/reader/attribute.hpp", f"{I}/src/syntax"],
  [("traverse/readElement/readElements/choice", f"{I}/include/openscenario_interpreter/reader/element.hpp")],
  ["constructor result or exception of syntax elements"])
p("C07", "Storyboard elements follow the standard's life cycle",
  "Every storyboard element is at every moment in exactly one of the standard's states, moves only along its transitions (standby, start transition, running, end transition, then standby or complete, or by stop to complete), reports each transition exactly once, completes only when all its children are complete or it is stopped, and leaves complete only when its parent starts a new execution of it. An event starts at most as often as its maximum execution count and a maneuver group at most as often as its own.",
  ["programs", "histories", "schedules"], "All storyboard shapes, trigger histories and priorities, at every simulation step.",
  "Nothing in the runnable tests executes a storyboard; the reachable state histories are unbounded.",
  [f"{I}/include/openscenario_interpreter/syntax/storyboard_element.hpp", f"{I}/src/syntax/event.cpp", f"{I}/src/syntax/act.cpp", f"{I}/src/syntax/story.cpp", f"{I}/src/syntax/maneuver_group.cpp"],
  [("StoryboardElement::changeStateIf and state methods", f"{I}/include/openscenario_interpreter/syntax/storyboard_element.hpp")],
  ["transition callbacks", "serialised storyboard state each step"])
p("C08", "Event priority decides which events of a maneuver run",
  "When an event of a maneuver starts, an overwrite event makes its running siblings enter their stop transition in that same step, a skip event does not start while a sibling is running, and a parallel event leaves the siblings alone; at all times the events that are running are explained by these rules and the trigger history.",
  ["programs", "histories"], "All sets of sibling events with any mix of priorities and any interleaving of their triggers and completions.",
  "Runnable tests only parse the priority word; the interplay of several events over time is never executed.",
  [f"{I}/src/syntax/event.cpp", f"{I}/src/syntax/maneuver.cpp", f"{I}/src/syntax/priority.cpp"],
  [("overrideEvents and skip callback", f"{I}/src/syntax/event.cpp")],
  ["storyboard state each step"])
p("C09", "Triggers fire exactly when their condition groups say so",
  "A trigger is true exactly when some condition group has all its conditions true at the same step; a condition with a rising, falling or either edge is true exactly in the step in which its value changes in that direction, and with a delay its value is the one it had the delay ago. A trigger's outcome at a step depends only on the condition values of that and earlier steps.",
  ["histories", "inputs"], "All boolean histories of condition values, all edges, delays and group shapes.",
  "Edge and delay semantics quantify over histories; no runnable test evaluates a condition.",
  [f"{I}/src/syntax/condition.cpp", f"{I}/src/syntax/condition_group.cpp", f"{I}/src/syntax/trigger.cpp", f"{I}/src/syntax/condition_edge.cpp"],
  [("Condition edge switch", f"{I}/src/syntax/condition.cpp"), ("Trigger/ConditionGroup evaluate", f"{I}/src/syntax/trigger.cpp")],
  ["evaluate() of Condition/ConditionGroup/Trigger each step"])
p("C10", "Parameters hold what was declared, constrained and last assigned",
  "A declared parameter has the declared type and value, a declaration whose value breaks its constraints or type is refused, a set or modify action leaves exactly the new value (converted to the declared type; real results are truncated toward zero for integral parameters and refused outside their range) visible to every later reader and no other parameter changed, and value conditions compare against that current value.",
  ["programs", "histories"], "All declarations, constraints, types and sequences of set, add and multiply actions.",
  "No runnable test executes a parameter action or constraint.",
  [f"{I}/src/syntax/parameter_declaration.cpp", f"{I}/src/syntax/parameter_set_action.cpp", f"{I}/src/syntax/parameter_modify_action.cpp", f"{I}/src/syntax/parameter_condition.cpp", f"{I}/src/syntax/value_constraint.cpp"],
  [("ParameterSetAction::set", f"{I}/src/syntax/parameter_set_action.cpp")],
  ["Scope::ref after each action"])
# ---------------------------------------------------------------- processes and reports
p("C11", "External commands run once, with their arguments intact, and are reaped",
  "Running an external command starts exactly the named program once with exactly the given arguments in order (the whitespace-separated words of a command string), waits until it has ended, leaves no zombie, and captures all of its output unchanged where output is asked for. A program that cannot be started neither lets a copy of the simulator continue running nor goes unreported.",
  ["inputs", "fault_sequences"], "All argument vectors (empty, spaces, long, non-ASCII), child exits by status or signal, missing programs, concurrent callers.",
  "No existing test starts a process.",
  [f"{I}/src/posix/fork_exec.cpp", "external/concealer/src/execute.cpp", "external/concealer/include/concealer/launch.hpp", f"{I}/include/openscenario_interpreter/string/split.hpp"],
  [("fork_exec/execvp/execute/dollar", f"{I}/src/posix/fork_exec.cpp")],
  ["argv and exit recorded by the child", "waitpid in the parent"])
p("C12", "Test reports are well-formed and count every result exactly once",
  "A written JUnit report is well-formed XML that contains every recorded test case exactly once with its name, class, time, outcome and message unaltered, and the totals on every level equal what is below them. Recording the same case again does not duplicate it, and the file on disk is only ever a complete report.",
  ["inputs", "histories"], "All sequences of recorded suites, cases, outcomes and message texts.",
  "No existing test writes a report.",
  ["common/simple_junit/src/test_suites.cpp", "common/simple_junit/include/simple_junit/test_suites.hpp", "common/simple_junit/include/simple_junit/junit5.hpp"],
  [("TestSuites::write", "common/simple_junit/src/test_suites.cpp"), ("SimpleTestSuites operator<<", "common/simple_junit/include/simple_junit/junit5.hpp")],
  ["the XML file, read by an independent parser"])
# ---------------------------------------------------------------- concurrency
p("C13", "Deferred tasks run once each, in submission order, and failures surface",
  "Every task handed to the task queue is executed exactly once, in the order of submission, by one worker at a time, and the queue reports itself empty only when no submitted task is waiting or running. If a task throws, no later task runs and the next submitter receives that same error; none of this involves a data race under any thread schedule.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of submitters, observers, the worker and destruction; any task throwing.",
  "A race or lost task needs a schedule no test drives; there is no test of the queue.",
  ["external/concealer/src/task_queue.cpp", "external/concealer/include/concealer/task_queue.hpp"],
  [("dispatcher loop and mutex", "external/concealer/src/task_queue.cpp")],
  ["events logged by the submitted tasks", "ThreadSanitizer"])
p("C14", "The status monitor reports every thread truthfully and without races",
  "Every status record written is complete JSON that lists each thread that reported in exactly once with its name, and calls a thread good exactly when it has exited or reported within the threshold, and the whole good exactly when all are. Threads may register, report, change the threshold and exit concurrently with the watchdog without a data race, deadlock or lost registration.",
  ["schedules", "histories"], "All interleavings of registering, touching, exiting threads and the writer.",
  "Concurrency over schedules; there is no test of the monitor.",
  ["common/status_monitor/src/status_monitor.cpp", "common/status_monitor/include/status_monitor/status_monitor.hpp"],
  [("static mutex around statuses", "common/status_monitor/src/status_monitor.cpp")],
  ["JSON lines in the status file", "ThreadSanitizer"])
# ---------------------------------------------------------------- jobs, entities
p("C15", "Measurement jobs run once per step until they finish, then never again",
  "In every step a job registered for that phase is invoked exactly once, in registration order, with the time accumulated since it was registered, until it reports completion; then its cleanup runs exactly once and it is never invoked again. Registering an exclusive job of a kind ends the active exclusive jobs of that kind and only those.",
  ["histories", "inputs"], "All sequences of registering jobs of all kinds and stepping both phases.",
  "test_job checks two fixed sequences.",
  [f"{T}/src/job/job.cpp", f"{T}/src/job/job_list.cpp"],
  [("Job::onUpdate/inactivate", f"{T}/src/job/job.cpp"), ("JobList::append", f"{T}/src/job/job_list.cpp")],
  ["invocations recorded by the jobs' callbacks"])
# ---------------------------------------------------------------- geometry
p("C16", "The polynomial solver returns exactly the real roots in the interval",
  "For every linear, quadratic and cubic equation with ordinary coefficients, each returned value lies in the requested interval and satisfies the equation within the documented tolerance (1e-7), and every well-separated real root inside the interval is returned. Degenerate leading coefficients reduce to the lower-degree equation and an equation satisfied by everything or nothing is treated as documented.",
  ["inputs"], "All coefficient tuples of ordinary magnitude including degenerate ones, all intervals.",
  "The repository's tests sample a grid of coefficients and do not run here.",
  [f"{G}/src/solver/polynomial_solver.cpp", f"{G}/include/geometry/solver/polynomial_solver.hpp"],
  [("solveLinear/Quadratic/CubicEquation", f"{G}/src/solver/polynomial_solver.cpp")],
  ["returned root lists"])
p("C17", "Lane curves pass through their control points and invert consistently",
  "A lane curve built from points passes through every one of them in order, is continuous in position and direction, and its arc-length parameter is the distance travelled; the point at arc length s lies on it, pose heading follows the tangent, and projecting a point of the curve back gives its s. Its crossings with a polyline are exactly the places where both meet, first or last as asked, and a sub-curve answers as the whole curve restricted to its range.",
  ["inputs"], "All point lists (straight, bent, short, duplicated), all arc lengths and query polygons.",
  "The repository's tests use a few hand-made curves and do not run here.",
  [f"{G}/src/spline/catmull_rom_spline.cpp", f"{G}/src/spline/hermite_curve.cpp", f"{G}/src/spline/catmull_rom_subspline.cpp", f"{G}/src/polygon/line_segment.cpp"],
  [("CatmullRomSpline", f"{G}/src/spline/catmull_rom_spline.cpp")],
  ["results of the curve queries"])
p("C18", "Rotations and poses obey rigid-body algebra",
  "Euler-to-quaternion conversion and back is the identity up to angle wrapping, quaternion products, relative rotations, rotation matrices and angle differences agree with each other and with rigid-body rotation, interpolation moves along the shortest rotation at constant rate, and transforming a pose into another's frame and back gives the pose again. Vector operations obey the ordinary vector identities.",
  ["inputs"], "All unit quaternions, Euler angles, vectors and poses of ordinary magnitude, including axis-aligned and nearly equal ones.",
  "Identities over a continuous domain; the tests sample a few values and do not run here.",
  [f"{G}/include/geometry/quaternion", f"{G}/include/geometry/vector3", f"{G}/src/transform.cpp"],
  [("header-only vector and quaternion operations", f"{G}/include/geometry"), ("getRelativePose/transformPoint", f"{G}/src/transform.cpp")],
  ["function results"])
p("C19", "Distances and intersections of shapes are geometrically true",
  "The distance between two bounding boxes is zero or absent exactly when they overlap and otherwise the true shortest gap, does not depend on the order of the two, and moves rigidly with them; polygons and segments are reported to intersect exactly when they share a point, at that point, and the convex hull and distance helpers agree with a direct computation.",
  ["inputs"], "All pairs of boxes, poses, segments and polygons of ordinary magnitude.",
  "Continuous input space; the tests sample a few placements and do not run here.",
  [f"{G}/src/bounding_box.cpp", f"{G}/src/distance.cpp", f"{G}/src/intersection", f"{G}/src/polygon"],
  [("getPolygonDistance", f"{G}/src/bounding_box.cpp"), ("getIntersection2D", f"{G}/src/intersection/intersection.cpp")],
  ["function results"])
# ---------------------------------------------------------------- sensors and vehicles
p("C20", "A ray across the grid visits exactly the cells it passes through, in order",
  "Traversing a grid from one point to another yields the cell of the start first and the cell of the end last, every cell the segment passes through exactly once, in order along the segment, each next cell sharing an edge with the previous one, and no cell the segment does not touch. The traversal always ends, for every pair of points in the grid.",
  ["inputs"], "All segments in the non-negative quadrant with any direction, including axis-parallel and diagonal ones and endpoints on or next to cell borders.",
  "test_grid_traversal checks a dozen fixed segments.",
  [f"{S}/src/sensor_simulation/occupancy_grid/grid_traversal.cpp"],
  [("GridTraversal iterator", f"{S}/src/sensor_simulation/occupancy_grid/grid_traversal.cpp")],
  ["the sequence of visited cells"])
p("C21", "The occupancy grid marks obstacles and exactly their shadows",
  "In every occupancy grid built for a sensor, the cells covered by an obstacle are marked occupied, the cells hidden behind an obstacle as seen from the sensor are marked invisible, and every other cell is free (cells touched only at their border may be either); building is independent of obstacle order and never touches memory outside the grid.",
  ["inputs"], "All grid sizes, sensor poses and sets of box obstacles inside, across and outside the grid.",
  "Continuous placements and combinations; the tests sample a few and do not run here.",
  [f"{S}/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp", f"{S}/src/sensor_simulation/occupancy_grid/grid_traversal.cpp"],
  [("OccupancyGridBuilder", f"{S}/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp")],
  ["the finished grid"])
p("C22", "Vehicle models respect their limits, delays and gears",
  "For every command history a simulated vehicle's steering angle, steering rate, speed and acceleration stay inside the model's configured limits, commands take effect no earlier than the configured delay, a vehicle in a forward gear never rolls backward and in reverse never forward, and its position advances as the kinematics of its speed and heading say. Equal inputs give equal trajectories, and no input history makes the state non-finite.",
  ["histories", "inputs", "configurations"], "All model types, parameter sets, command and gear histories and step sizes.",
  "Histories of continuous inputs; no runnable test executes a vehicle model.",
  [f"{S}/src/vehicle_simulation/vehicle_model"],
  [("SimModel* update and calcModel", f"{S}/src/vehicle_simulation/vehicle_model")],
  ["state after each update"])
# ---------------------------------------------------------------- traffic simulator
p("C23", "Planned speed changes reach the target within the given limits",
  "Whatever the current motion, target speed and constraints, each planned step keeps speed, acceleration and deceleration inside the constraints, builds up acceleration no faster than the jerk limit (it may be given up at once), never overshoots the target, and repeated steps reach the target (or the speed limit nearest to it) in bounded time and stay there. The predicted running distance and duration of a speed change, and the constraints planned for a change within a given time, agree with what stepping then does to within a few steps.",
  ["inputs", "histories"], "All constraint sets, current states, targets and step sizes of ordinary magnitude.",
  "Continuous space; the repository's tests sample a few and do not run here.",
  [f"{T}/src/behavior/longitudinal_speed_planning.cpp"],
  [("LongitudinalSpeedPlanner::getDynamicStates", f"{T}/src/behavior/longitudinal_speed_planning.cpp")],
  ["returned twist/acceleration/jerk sequence"])
p("C24", "Entities following a trajectory arrive where and when it says",
  "An entity following a trajectory visits its waypoints in order, each within one step's distance; it passes a timed waypoint at its time (within one step) and stops within 0.1 m of the last (at its time if it has one, within two steps), after which it is told to stop following, and never before. On the way every step moves straight towards the next waypoint by the mean of the old and new speed, with speed, acceleration, deceleration and their rates inside the limits (small overshoots of one step's rate excepted; the remaining speed within the last 0.1 m may be braked at once). A trajectory that cannot be met, and an invalid state or trajectory, is reported as an error instead of being silently violated; an untimed trajectory, and one with ample time, followed from standstill is not refused.",
  ["inputs", "histories"], "All trajectories with timed and untimed waypoints, performance limits and step sizes.",
  "Continuous space over many steps; not runnable in the tests here.",
  [f"{T}/src/behavior/follow_trajectory.cpp", f"{T}/src/behavior/follow_waypoint_controller.cpp"],
  [("makeUpdatedStatus / FollowWaypointController", f"{T}/src/behavior")],
  ["status sequence returned step by step"])
p("C25", "Traffic light states survive every textual and message representation",
  "Setting a traffic light from a state description makes exactly the described bulbs lit and no others, describing the light gives text that sets the same state again, and every published or serialised form carries the same colours, statuses and shapes, for every light of a regulatory element it was set through, with detected states replacing true ones in what is published for perception. Text that describes no valid bulb is refused.",
  ["inputs"], "All combinations of colour, status and shape, all description strings.",
  "The combinations and malformed strings are not covered by any runnable test.",
  [f"{T}/include/traffic_simulator/traffic_lights/traffic_light.hpp", f"{T}/src/traffic_lights/traffic_light.cpp"],
  [("TrafficLight::Bulb parsing and printing", f"{T}/src/traffic_lights/traffic_light.cpp")],
  ["set()/stream output/conversion operators"])
# ---------------------------------------------------------------- simulator interface
p("C26", "Messages between simulator processes arrive with the same content",
  "Converting any message to its wire form and back gives an equal message in every field, for every message kind exchanged, including nested and repeated fields and every enumeration value; a value with no counterpart is refused instead of being turned into another.",
  ["inputs"], "All values of every converted message type.",
  "The tests sample one value per field and do not run here.",
  ["simulation/simulation_interface/src/conversions.cpp", "simulation/simulation_interface/include/simulation_interface/conversions.hpp"],
  [("toProto/toMsg pairs", "simulation/simulation_interface/src/conversions.cpp")],
  ["field-wise comparison after the round trip"])
p("C27", "Every request to the simulator gets exactly its own reply",
  "Each request a client sends over the transport is handled exactly once by the handler of its kind with the content the client gave, and the reply the client receives is that handler's reply; the requests of one client are served in the order it sent them, a client closed on this side answers with an empty reply, and shutting either side down never loses an already returned reply, deadlocks or races.",
  ["schedules", "histories", "fault_sequences"], "All sequences of request kinds from concurrent clients, with server start and stop at any point.",
  "Schedules of two processes; no runnable test starts the transport.",
  ["simulation/simulation_interface/src/zmq_multi_client.cpp", "simulation/simulation_interface/src/zmq_multi_server.cpp", "simulation/simulation_interface/include/simulation_interface/zmq_multi_server.hpp"],
  [("MultiClient::call / MultiServer::poll", "simulation/simulation_interface/src")],
  ["request and reply pairs at the client and the handlers"])
# ---------------------------------------------------------------- test runners
p("C28", "Collisions in random tests are counted once per encounter",
  "While an ego keeps touching another entity with no gap longer than the timeout, exactly one collision is reported, at the first contact; after a longer gap the next contact is a new collision, and contacts with one entity never hide or create a collision with another.",
  ["histories", "inputs"], "All contact histories of any number of entities with non-decreasing time.",
  "test_ego_collision_metric checks five short histories of at most two entities.",
  ["test_runner/random_test_runner/include/random_test_runner/metrics/ego_collision_metric.hpp"],
  [("isThereEgosCollisionWith", "test_runner/random_test_runner/include/random_test_runner/metrics/ego_collision_metric.hpp")],
  ["reported collisions"])
p("C29", "Random test values stay in range and are reproducible",
  "Every value a randomizer generates lies in its current range, both ends of a small integer range occur, the same seed and ranges give the same sequence, and changing the range takes effect at once. A randomizer without an engine refuses instead of returning a value.",
  ["inputs", "histories"], "All ranges, seeds and interleavings of generating and changing ranges.",
  "No existing test uses a randomizer.",
  ["test_runner/random_test_runner/include/random_test_runner/randomizers.hpp"],
  [("UniformRandomizer", "test_runner/random_test_runner/include/random_test_runner/randomizers.hpp")],
  ["generated sequences"])
p("C30", "Scenario conversion keeps the content and order of the scenario",
  "Converting a scenario from its YAML form yields an XML document with the same elements, attributes, values and sibling order as the standard's schema requires, for every scenario the YAML form can express; the result parses, and converting again gives the same document.",
  ["inputs", "programs"], "All YAML trees in scenario form, including the repository's own scenarios and mutations of them.",
  "No runnable test executes the converter.",
  ["openscenario/openscenario_utility/openscenario_utility/conversion.py"],
  [("conversion functions", "openscenario/openscenario_utility/openscenario_utility/conversion.py")],
  ["the produced XML, compared with the YAML tree"])
p("C31", "The verdict of a run is the scenario's own verdict",
  "A run whose scenario calls for success is reported as passed, one that calls for failure as failed, and one that ends by any error as an error of that kind with its message; exactly one verdict is written per run, in every life-cycle order, and a run that never reached a verdict is never reported as passed: one deactivated from outside is a failure by timeout, one that is shut down while active has no result.",
  ["histories", "fault_sequences"], "All life-cycle orders, commands and errors raised at any step.",
  "No runnable test runs the interpreter.",
  [f"{I}/src/openscenario_interpreter.cpp", f"{I}/include/openscenario_interpreter/openscenario_interpreter.hpp", f"{I}/src/syntax/custom_command_action.cpp"],
  [("withExceptionHandler / set<junit result>", f"{I}/include/openscenario_interpreter/openscenario_interpreter.hpp")],
  ["result.junit.xml"])
p("C32", "Heterogeneous scenario objects keep identity, type and lifetime",
  "A scenario object stored behind the interpreter's generic handle is returned as the same object of the same type for as long as any handle to it lives and is destroyed exactly once when the last is gone; asking for another type is refused, and evaluating or printing through the handle is the same as through the object itself.",
  ["inputs", "histories"], "All stored types and sequences of copying, casting, assigning and dropping handles.",
  "No existing test uses the handles.",
  [f"{I}/include/openscenario_interpreter/pointer.hpp", f"{I}/include/openscenario_interpreter/expression.hpp", f"{I}/src/object.cpp"],
  [("Pointer<T>::Binder / as<U>() / make", f"{I}/include/openscenario_interpreter/pointer.hpp")],
  ["cast results, destructor counts, AddressSanitizer"])
