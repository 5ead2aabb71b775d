# executed by registry.py

GM = [GEOM_SRC + "vector3/ros_msg_converter.cpp"]
EXC_SRC = R + "/common/scenario_simulator_exception/src/scenario_simulator_exception.cpp"

check("G01", "G01.cpp", GM + [EXC_SRC], GEOM_INC, shim=True,
      rule="the operands differ (comparisons), or are non-zero vectors (arithmetic), or a component is not finite (finiteness)")
check("G02", "G02.cpp", [GEOM_SRC + "transform.cpp", EXC_SRC], GEOM_INC, shim=True,
      rule="the rotations involved are no identity (two or more angles non-zero for Euler angles)")
check("G03", "G03.cpp", [GEOM_SRC + "solver/polynomial_solver.cpp", EXC_SRC], GEOM_INC, shim=True,
      rule="a real root lies in the requested range (equations), or the argument is non-zero (values)")
check("G04", "G04.cpp", GEOM_ALL + [EXC_SRC], GEOM_INC, shim=True,
      rule="the curve has a positive length, and for crossings at least one clean crossing with the segment exists")
check("G05", "G05.cpp", GEOM_ALL + [EXC_SRC], GEOM_INC, shim=True,
      rule="the spline has two or more control points, no stretch shorter than 0.5 m and no standstill, and for crossings a clean crossing exists")
check("G06", "G06.cpp", GEOM_ALL + [EXC_SRC], GEOM_INC, shim=True,
      rule="the segment is longer than nothing (shape), or the point lies on the segment / the segments intersect (relations)")
check("G07", "G07.cpp", GEOM_ALL + [EXC_SRC], GEOM_INC, shim=True,
      rule="the boxes or rings are not within 1e-6 m of touching, the points are not on one line, or the normal is not zero")
check("C01", "C01.cpp", [R + "/common/simple_junit/src/*.cpp"], [JUNIT, EXC], libs=["-lpugixml", "-lboost_date_time"],
      rule="two or more results were added to the report")
check("C02", "C02.cpp", [R + "/common/status_monitor/src/*.cpp"], [MONITOR], shim=True, unique_argv0=True, scale={"quick": 1}, cpu_limit=5,
      rule="a threshold was overridden, a thread exited or time passed")
check("T01", "T01.cpp", [R + "/simulation/traffic_simulator/src/job/*.cpp"], [TRAFFIC], shim=True, rule="a job finished or was replaced")
check("S01", "S01.cpp", [R + "/simulation/simulation_interface/src/" + x for x in ("conversions.cpp", "operators.cpp", "constants.cpp")] + [EXC_SRC], [IFACE, EXC], shim=True, proto=True, libs=["-lzmq"],
      rule="the message is not empty")
check("S02", "S02.cpp", [R + "/simulation/simulation_interface/src/*.cpp", R + "/common/status_monitor/src/*.cpp", EXC_SRC], [IFACE, EXC, MONITOR], shim=True, proto=True, libs=["-lzmq"],
      unique_argv0=True, rule="two or more requests were exchanged")
check("S03", "S03.cpp", [R + "/simulation/simple_sensor_simulator/src/vehicle_simulation/vehicle_model/*.cpp", EXC_SRC], [SENSOR, EXC], shim=True,
      rule="the vehicle moved during at least three steps (models), or the map is well-formed (maps)")
check("S04", "S04.cpp", [R + "/simulation/simple_sensor_simulator/src/sensor_simulation/" + x for x in ("occupancy_grid/*.cpp", "primitives/*.cpp")] + [R + "/simulation/simulation_interface/src/" + x for x in ("conversions.cpp", "operators.cpp", "constants.cpp")] + GEOM_ALL + [EXC_SRC], [SENSOR, IFACE, EXC] + GEOM_INC, shim=True, proto=True, libs=["-lzmq"],
      rule="the line crosses two or more cells (traversal), or a cell is occupied (grids)")
SENSORS = [R + "/simulation/simple_sensor_simulator/src/sensor_simulation/" + x for x in ("primitives/*.cpp", "lidar/*.cpp")] + [R + "/simulation/simulation_interface/src/" + x for x in ("conversions.cpp", "operators.cpp", "constants.cpp")] + GEOM_ALL + [EXC_SRC]
check("T02", "T02.cpp", [R + "/simulation/traffic_simulator/src/behavior/longitudinal_speed_planning.cpp", EXC_SRC], [TRAFFIC, EXC] + GEOM_INC, shim=True,
      rule="an approach takes more than three steps, or a planned approach is driven")
check("S06", "S06.cpp", [R + "/simulation/simple_sensor_simulator/src/sensor_simulation/detection_sensor/*.cpp"] + SENSORS[2:], [SENSOR, IFACE, EXC, GETP] + GEOM_INC, shim=True, proto=True, libs=["-lzmq"],
      rule="an object is published, or the noise is random")
check("S07", "S07.cpp", [R + "/external/concealer/src/publisher.cpp", R + "/simulation/simple_sensor_simulator/src/sensor_simulation/imu/*.cpp"] + SENSORS[2:], [SENSOR, IFACE, EXC, GETP, CONCEALER] + GEOM_INC, shim=True, proto=True, libs=["-lzmq"],
      rule="the message is noisy (faster than the threshold, noise other than zero), or the entity of the sensor is there and its noise is not zero")
check("S05", "S05.cpp", SENSORS, [SENSOR, IFACE, EXC, GETP, AGNO] + GEOM_INC, shim=True, proto=True, libs=["-lzmq"],
      rule="a published point cloud contains points")
LANELET = [R + "/simulation/traffic_simulator/src/" + x for x in ("lanelet_wrapper/*.cpp", "utils/*.cpp", "data_type/*.cpp", "helper/*.cpp", "color_utils/*.cpp", "behavior/route_planner.cpp")] + GEOM_ALL + [EXC_SRC]
LANELET_INC = [TRAFFIC, IFACE, EXC, GETP, AGNO] + GEOM_INC
LANELET_UNITY = [(R + "/simulation/traffic_simulator/src/lanelet_wrapper/", 3), (R + "/simulation/traffic_simulator/src/utils/", 2), (R + "/simulation/traffic_simulator/src/data_type/", 2), (R + "/common/math/geometry/", 4)]
check("T03", "T03.cpp", LANELET, LANELET_INC, shim=True, proto=True, unity=LANELET_UNITY, libs=["-lzmq", "-lyaml-cpp", "-lboost_serialization"],
      rule="the pose leaves its lane (canonical, along), or the box lies on the lane that fits best (match); all cases (map, relative)")
check("T04", "T04.cpp", LANELET, LANELET_INC, shim=True, proto=True, unity=LANELET_UNITY, libs=["-lzmq", "-lyaml-cpp", "-lboost_serialization"],
      rule="the network has more than two lanes (relations), a route of two or more lanes exists (routes), a goal is ahead in another lane (planner), a lane change is planned (change), or there are signs, right of way or crosswalks (rules)")
check("T05", "T05.cpp", LANELET, LANELET_INC, shim=True, proto=True, unity=LANELET_UNITY, libs=["-lzmq", "-lyaml-cpp", "-lboost_serialization"],
      rule="a distance along the lanes exists (lanes, starts, boxes), the way crosses a line (lines), someone has to be waited for (yield), an obstacle or conflict is found (front, conflicts); all cases (spline)")
check("T07", "T07.cpp", LANELET + [R + "/simulation/traffic_simulator/src/behavior/follow_*.cpp"], LANELET_INC, shim=True, san="none", proto=True, unity=LANELET_UNITY, libs=["-lzmq", "-lyaml-cpp", "-lboost_serialization"],
      rule="the end of the trajectory is reached in time (timed) or at all (untimed), or a closed one is gone around")
SIMULATOR = [R + "/simulation/traffic_simulator/src/**/*.cpp", R + "/simulation/simulation_interface/src/*.cpp", R + "/external/concealer/src/*.cpp", R + "/common/status_monitor/src/*.cpp", R + "/common/simple_junit/src/*.cpp"] + GEOM_ALL + [EXC_SRC]
SIMULATOR_INC = [TRAFFIC, IFACE, EXC, GETP, AGNO, CONCEALER, MONITOR, JUNIT] + GEOM_INC
T_SRC = R + "/simulation/traffic_simulator/src/"
SIMULATOR_UNITY = [(T_SRC + "lanelet_wrapper/", 2), (T_SRC + "utils/", 1), (T_SRC + "data_type/", 1), (T_SRC + "entity/", 2), (T_SRC + "traffic_lights/", 1), (T_SRC + "traffic/", 1), (T_SRC + "behavior/", 1), (R + "/external/concealer/src/", 2), (R + "/common/math/geometry/", 2)]
INTERPRETER = [ISRC + "*.cpp", ISRC + "*/*.cpp"] + SIMULATOR
INTERPRETER_SKIP = [R + "/simulation/simulation_interface/src/zmq_multi_client.cpp", ISRC + "openscenario_interpreter_node.cpp", T_SRC + "visualization/visualization_node.cpp", T_SRC + "visualization/visualization_component.cpp"]
INTERPRETER_UNITY = [(ISRC + "syntax/", 10), (ISRC + "reader/", 1), (ISRC + "utility/", 1)] + SIMULATOR_UNITY
INTERPRETER_FORCE = {ISRC: "{verif}/harness/interp_pch.hpp"}


def interpreter(pid, **kw):
    check(pid, pid + ".cpp", INTERPRETER, [INTERP] + SIMULATOR_INC, shim=True, proto=True, skip=INTERPRETER_SKIP, unity=INTERPRETER_UNITY, force=INTERPRETER_FORCE, san="none",
          libs=["-lzmq", "-lyaml-cpp", "-lboost_serialization", "-lboost_json", "-lpugixml", "-lboost_date_time", "-lboost_filesystem", "-latomic"], **kw)


interpreter("I01", rule="a trigger became true after the first frame")
interpreter("I03", rule="an expression with an operator, a reference, a name found beyond its own frame, a changed parameter, an assigned catalog parameter")
interpreter("I02", rule="some of the evaluated conditions hold and some do not")
interpreter("I04", rule="an action on an entity ends after a while, changes its limits or its place")
interpreter("T08", rule="entities are spawned, run and go (world), a source spawns some (sources)")
interpreter("T06", rule="a phase changes and an action is executed")
