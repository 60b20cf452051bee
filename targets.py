"""What each harness is made of: the project's own sources (globbed, so that new files are
picked up) plus the stand-ins in shim/."""
import glob, os
from vbuild import Lib, Target

INCLUDES = ["common/agnocast_wrapper", "common/get_parameter", "common/math/arithmetic", "common/math/geometry",
            "common/scenario_simulator_exception", "common/simple_junit", "common/status_monitor", "external/concealer",
            "openscenario/openscenario_interpreter", "openscenario/openscenario_preprocessor",
            "openscenario/openscenario_validator", "simulation/behavior_tree_plugin", "simulation/context_gamma_planner",
            "simulation/do_nothing_plugin", "simulation/simple_sensor_simulator", "simulation/simulation_interface",
            "simulation/traffic_simulator", "test_runner/random_test_runner"]

def define(R, V, GEN):
    def cpp(d, skip=()):
        out = sorted(glob.glob(f"{R}/{d}/**/*.cpp", recursive=True))
        return [f for f in out if not any(s in f[len(R):] for s in skip)]
    H = f"{V}/harness"
    protos_in = sorted(glob.glob(f"{R}/simulation/simulation_interface/proto/*.proto"))
    pdir, pinc = f"{GEN}/proto/simulation_interface", f"{R}/simulation/simulation_interface/proto"
    libs = {}
    libs["inc"] = Lib(incs=[f"{H}", f"{V}/shim/include"] + [f"{R}/{d}/include" for d in INCLUDES]
                      + [f"{GEN}/msgs", f"{GEN}/proto", "/usr/include/eigen3"])
    libs["proto"] = Lib(srcs=[f"{pdir}/{os.path.splitext(os.path.basename(p))[0]}.pb.cc" for p in protos_in],
                        libs=["inc"], link=["-lprotobuf"], order=["protos"])
    libs["exception"] = Lib(srcs=cpp("common/scenario_simulator_exception/src"), libs=["inc"])
    libs["junit"] = Lib(srcs=cpp("common/simple_junit/src"), libs=["exception", "inc"], link=["-lpugixml"])
    libs["execute"] = Lib(srcs=[f"{R}/external/concealer/src/execute.cpp"], libs=["inc"])
    I = "openscenario/openscenario_interpreter/src"
    pure = """boolean command condition_edge coordinate_system double dynamics_dimension dynamics_shape following_mode
      fractional_cloud_cover integer misc_object_category parameter_type pedestrian_category precipitation_type
      priority reference_context relative_distance_type route_strategy routing_algorithm rule speed_target_value_type
      storyboard_element_state storyboard_element_type triggering_entities_rule unsigned_integer unsigned_short
      vehicle_category wetness string""".split()
    libs["syntax_core"] = Lib(
        srcs=[f for f in [f"{R}/{I}/compatibility.cpp", f"{R}/{I}/object.cpp", f"{R}/{I}/utility/demangle.cpp"]
              + [f"{R}/{I}/syntax/{n}.cpp" for n in pure] if os.path.exists(f)],
        libs=["exception", "junit", "inc"], flags=["-include", f"{V}/shim/interpreter_prelude.hpp"], link=["-lglog"])
    tg = {}
    for n in ("scalars", "rule", "enum"):
        tg[f"c_{n}"] = Target(srcs=[f"{H}/c_{n}.cpp"], libs=["syntax_core"])
    tg["c_junit"] = Target(srcs=[f"{H}/c_junit.cpp"], libs=["junit"], link=["-lexpat"])
    libs["job"] = Lib(srcs=cpp("simulation/traffic_simulator/src/job"), libs=["inc"])
    tg["c_job"] = Target(srcs=[f"{H}/c_job.cpp"], libs=["job"])
    tg["c_ego"] = Target(srcs=[f"{H}/c_ego.cpp"], libs=["inc"])
    tg["c_random"] = Target(srcs=[f"{H}/c_random.cpp"], libs=["inc"])
    libs["grid_traversal"] = Lib(srcs=[f"{R}/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp"], libs=["inc"])
    tg["c_grid"] = Target(srcs=[f"{H}/c_grid.cpp"], libs=["grid_traversal"])
    libs["task_queue"] = Lib(srcs=[f"{R}/external/concealer/src/task_queue.cpp"], libs=["inc"])
    libs["status_monitor"] = Lib(srcs=cpp("common/status_monitor/src"), libs=["inc"])
    for s in ("asan", "tsan"):
        tg[f"c_taskqueue_{s}"] = Target(srcs=[f"{H}/c_taskqueue.cpp"], libs=["task_queue"], san=s)
        tg[f"c_status_{s}"] = Target(srcs=[f"{H}/c_status.cpp"], libs=["status_monitor"], san=s)
    tg["c11_child"] = Target(srcs=[f"{H}/c11_child.cpp"], san="plain")
    libs["exec"] = Lib(srcs=[f"{R}/{I}/posix/fork_exec.cpp", f"{R}/{I}/record.cpp"], libs=["execute", "inc"])
    tg["c_exec"] = Target(srcs=[f"{H}/c_exec.cpp"], libs=["exec"])
    tg["c_object"] = Target(srcs=[f"{H}/c_object.cpp"], libs=["syntax_core"])
    libs["geometry"] = Lib(srcs=cpp("common/math/geometry/src"), libs=["exception", "inc"], flags=["-include", f"{V}/shim/prelude.hpp"])
    tg["c_solver"] = Target(srcs=[f"{H}/c_solver.cpp"], libs=["geometry"])
    tg["c_curve"] = Target(srcs=[f"{H}/c_curve.cpp"], libs=["geometry"])
    tg["c_pose"] = Target(srcs=[f"{H}/c_pose.cpp"], libs=["geometry"])
    tg["c_shapes"] = Target(srcs=[f"{H}/c_shapes.cpp"], libs=["geometry"])
    libs["vehicle_model"] = Lib(srcs=cpp("simulation/simple_sensor_simulator/src/vehicle_simulation/vehicle_model"), libs=["inc"],
                                flags=["-include", f"{V}/shim/prelude.hpp"])
    tg["c_vehicle"] = Target(srcs=[f"{H}/c_vehicle.cpp"], libs=["vehicle_model"])
    SI = "simulation/simulation_interface/src"
    libs["conversions"] = Lib(srcs=[f"{R}/{SI}/{n}.cpp" for n in ("constants", "conversions", "operators")], libs=["proto", "exception", "inc"],
                              order=["protos"], link=["-lzmq"], flags=["-include", f"{V}/shim/prelude.hpp"])
    tg["c_message"] = Target(srcs=[f"{H}/c_message.cpp"], libs=["conversions"], order=["protos"])
    SS = "simulation/simple_sensor_simulator/src/sensor_simulation"
    libs["occupancy"] = Lib(srcs=cpp(f"{SS}/occupancy_grid") + cpp(f"{SS}/primitives"), libs=["geometry", "conversions", "inc"], order=["protos"],
                            flags=["-include", f"{V}/shim/prelude.hpp"])
    tg["c_occ"] = Target(srcs=[f"{H}/c_occ.cpp"], libs=["occupancy"], order=["protos"])
    libs["speed"] = Lib(srcs=[f"{R}/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp"], libs=["geometry", "exception", "inc"],
                        flags=["-include", f"{V}/shim/prelude.hpp"])
    tg["c_speed"] = Target(srcs=[f"{H}/c_speed.cpp"], libs=["speed"])
    libs["follow"] = Lib(srcs=[f"{R}/simulation/traffic_simulator/src/behavior/follow_{n}.cpp" for n in ("trajectory", "waypoint_controller")],
                         incs=[f"{V}/shim/trajectory"], libs=["geometry", "exception", "inc"], flags=["-include", f"{V}/shim/prelude.hpp"])
    tg["c_follow"] = Target(srcs=[f"{H}/c_follow.cpp"], libs=["follow"])
    TL = "simulation/traffic_simulator/src"
    libs["lights"] = Lib(srcs=cpp(f"{TL}/traffic_lights") + [f"{R}/{TL}/utils/traffic_lights.cpp"], incs=[f"{V}/shim/lights"], libs=["conversions", "inc"],
                         order=["protos"], flags=["-include", f"{V}/shim/prelude.hpp"])
    tg["c_lights"] = Target(srcs=[f"{H}/c_lights.cpp"], libs=["lights"], order=["protos"])
    libs["transport"] = Lib(srcs=[f"{R}/{SI}/zmq_multi_client.cpp", f"{R}/{SI}/zmq_multi_server.cpp"], libs=["conversions", "status_monitor", "inc"], order=["protos"])
    tg["c_transport"] = Target(srcs=[f"{H}/c_transport.cpp"], libs=["transport"], order=["protos"])
    skip = ("openscenario_interpreter_node.cpp", "/posix/", "/record.cpp", "/compatibility.cpp", "/object.cpp", "/demangle.cpp")
    libs["interpreter"] = Lib(
        srcs=[f for f in cpp(I, skip) if not any(f.endswith(f"/syntax/{n}.cpp") for n in pure)] + [f"{H}/interp.cpp"],
        incs=[f"{V}/shim/world"], order=["protos"], pch=f"{V}/shim/interpreter_pch.hpp",
        libs=["syntax_core", "geometry", "exec", "proto", "status_monitor", "exception", "junit", "inc"], link=["-lglog", "-lboost_json"],
        flags=["-O0", "-fno-sanitize=null,object-size"])
    libs["interp"] = Lib(incs=[f"{V}/shim/world"], libs=["interpreter"])
    tg["c_story"] = Target(srcs=[f"{H}/c_story.cpp"], flags=["-O2", "-fno-sanitize=all"], libs=["interp"], order=["protos"])
    tg["c_scope"] = Target(srcs=[f"{H}/c_scope.cpp"], libs=["interp"], order=["protos"])
    tg["c_expr"] = Target(srcs=[f"{H}/c_expr.cpp"], libs=["interp"], order=["protos"])
    tg["c_param"] = Target(srcs=[f"{H}/c_param.cpp"], libs=["interp"], order=["protos"])
    tg["c_verdict"] = Target(srcs=[f"{H}/c_verdict.cpp"], libs=["interp"], order=["protos"])
    tg["c_doc"] = Target(srcs=[f"{H}/c_doc.cpp"], flags=[f"-DVERIF_DIR=\\\"{V}\\\""], libs=["interp"], order=["protos"])
    tg["c_probe"] = Target(srcs=[f"{H}/c_probe.cpp"], libs=["interp"], order=["protos"])
    if os.environ.get("VERIF_REPO_TESTS"):   # the repository's own tests, to validate the stand-ins
        def rt(d, ls, skip=()):
            for f in cpp(d, skip):
                if "TEST" in open(f).read():
                    tg["rt_" + os.path.basename(f)[:-4]] = Target(srcs=[f], libs=ls, link=["-lgtest", "-lgtest_main"])
        rt("common/math/geometry/test/src", ["geometry"])
    return libs, tg, (pdir, pinc, protos_in)
