# executed by mkmanifest.py
_G = "common/math/geometry/"
P("G01", "Vector arithmetic, angles and tolerant comparisons are exact in meaning",
  """Adding, subtracting, scaling, normalising, measuring and comparing points and vectors gives the mathematically
  correct result for every finite input, and the angle between two non-zero vectors is always a number.
  Comparisons with a tolerance are symmetric and accept exactly the differences within the stated tolerance, and a
  vector with a component that is not a finite number is always recognised as such.""",
  ["inputs"], "all points, vectors and scalars, including opposite, parallel, tiny, huge and non-finite ones",
  "Tests check a few hand-picked vectors; rounding effects on parallel vectors and on tolerance borders need many inputs.",
  [_G + "include/geometry/vector3/operator.hpp", _G + "include/geometry/vector3/internal_angle.hpp",
   "common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp"],
  [("operators and free functions over any vector-like type", _G + "include/geometry/vector3")])
P("G02", "Rotations and rigid transforms are consistent with each other",
  """Converting an orientation between Euler angles, quaternions and rotation matrices and back describes the same
  rotation, interpolating between two orientations follows the shorter rotation and hits both ends, and transforming
  a point into a frame is the rigid motion which that frame's pose describes.
  Relative poses compose with their reference pose to the original pose.""",
  ["inputs"], "all unit quaternions, Euler angles off the gimbal lock, and poses",
  "Tests rotate about single axes by round angles; sign, order and interpolation mistakes show for combined rotations only.",
  [_G + "include/geometry/quaternion/slerp.hpp", _G + "include/geometry/quaternion/euler_to_quaternion.hpp",
   _G + "include/geometry/quaternion/quaternion_to_euler.hpp", _G + "include/geometry/quaternion/get_rotation.hpp", _G + "src/transform.cpp"],
  [("quaternion conversions", _G + "include/geometry/quaternion"), ("transformPoint(s), getRelativePose", _G + "src/transform.cpp")])
P("G03", "Polynomial solving returns exactly the real roots in the requested range",
  """Solving a linear, quadratic or cubic equation over an interval returns every well separated real root in that
  interval, each within the solver's accuracy, and nothing that is not a root or lies outside the interval.
  Evaluating a polynomial gives its mathematical value.""",
  ["inputs"], "all coefficient combinations up to degree three and all intervals, degenerate leading coefficients included",
  "The case split of the cubic formula has branches that only particular coefficient relations reach.",
  [_G + "src/solver/polynomial_solver.cpp"],
  [("solveLinearEquation, solveQuadraticEquation, solveCubicEquation", _G + "src/solver/polynomial_solver.cpp")])
P("G04", "A Hermite curve's shape, length and crossings agree with its definition",
  """Positions, tangents, normals, poses, distances and curvature along a cubic curve are those of the cubic that its
  end points and end tangents define, and its length is the length of that arc.
  The reported crossings with a segment or polygon contain every clean crossing and only points that lie on both, ordered by the requested direction,
  and a pose within the lateral threshold is matched to the position beside it.""",
  ["inputs"], "all curves, gentle or looping, and all segments, polygons and poses, in normalised and metric coordinates",
  "Tests use a handful of curves and axis-parallel lines.",
  [_G + "src/spline/hermite_curve.cpp"], [("HermiteCurve", _G + "src/spline/hermite_curve.cpp")])
P("G05", "Catmull-Rom splines and their parts keep one consistent longitudinal coordinate",
  """A spline passes smoothly through all of its control points (repeated ones count once), and every query by longitudinal
  position, including lateral offsets, sampling, outlines, curvature and altitude, agrees with that shape; a spline of one or two points acts as a point or a segment.
  Crossings with polygons are found at the right longitudinal position, first or last as requested, poses are matched to the position beside them,
  and a part of a spline reports exactly what the whole reports within that part.""",
  ["inputs"], "all lists of control points, positions, offsets, ranges, resolutions, polygons and poses",
  "Position bookkeeping across several stretches fails for particular stretch lengths and range borders only.",
  [_G + "src/spline/catmull_rom_spline.cpp", _G + "src/spline/catmull_rom_subspline.cpp"],
  [("CatmullRomSpline", _G + "src/spline/catmull_rom_spline.cpp"), ("CatmullRomSubspline", _G + "src/spline/catmull_rom_subspline.cpp")])
P("G06", "Line segments and their intersections are decided correctly",
  """Whether two segments, or a point and a segment, meet is decided correctly in every relative position, touching and
  collinear ones included, and the reported intersection point and position along the segment are where they meet.
  Points, poses, normals, slopes and distances along a segment follow from its ends, positions off the segment are refused, and a
  polyline is split into its non-degenerate segments in order.""",
  ["inputs"], "all pairs of segments, points, poses and polylines; exact on integer coordinates",
  "Tests cover some layouts; sign and tolerance mistakes show for particular orientations only.",
  [_G + "src/polygon/line_segment.cpp", _G + "src/intersection/intersection.cpp"],
  [("LineSegment", _G + "src/polygon/line_segment.cpp"), ("isIntersect2D, getIntersection2D", _G + "src/intersection/intersection.cpp")])
P("G07", "Bounding boxes and polygons collide, touch and measure as their areas do",
  """Two bounding boxes are reported to collide exactly if their footprints overlap and their heights do, and otherwise their reported distance and
  closest points are those of the footprints, whichever is named first.
  Corners, edge distances, convex hulls, containment, polygon distances and signed plane offsets are the mathematical ones.""",
  ["inputs"], "all box sizes, centres and poses, rings in either direction, point sets and planes",
  "Tests place boxes axis-parallel; overlap without corners inside, height borders and open rings need generated layouts.",
  [_G + "src/bounding_box.cpp", _G + "src/intersection/collision.cpp", _G + "src/distance.cpp", _G + "src/polygon/polygon.cpp", _G + "src/plane.cpp"],
  [("checkCollision2D, contains", _G + "src/intersection/collision.cpp"), ("getPolygonDistance, getClosestPoses", _G + "src/bounding_box.cpp")])

P("C01", "Test reports state every result once, with correct counts, as valid XML",
  """A written JUnit report is well-formed XML whatever characters the results contain, lists every recorded suite, test, failure and
  error with its texts exactly once, and its counts are those of the recorded results.
  Recording a random test of the same suite and name again keeps the first result.""",
  ["inputs", "histories"], "all sequences of recorded results and all texts",
  "Tests write one fixed report; aggregation and escaping depend on the mixture of results.",
  ["common/simple_junit/include/simple_junit/junit5.hpp", "common/simple_junit/src/test_suites.cpp"],
  [("JUnit5, SimpleTestSuites", "common/simple_junit/include/simple_junit/junit5.hpp"), ("TestSuites::write", "common/simple_junit/src")])
P("C02", "The status monitor reports a thread as good exactly while it is alive or exited",
  """The status file lists every thread that ever touched the monitor, with its name and its shortest and longest access intervals, and calls a thread
  good exactly if it has exited or accessed the monitor within the current threshold; the process is good exactly if all threads are.
  A temporarily overridden threshold applies during the call and is restored afterwards, also when the call throws.""",
  ["histories", "schedules"], "all sequences of touches, threshold changes, overrides and exits over several threads",
  "The state is process-wide and depends on the history of several threads.",
  ["common/status_monitor/include/status_monitor/status_monitor.hpp", "common/status_monitor/src/status_monitor.cpp"],
  [("StatusMonitor", "common/status_monitor/src/status_monitor.cpp")])
P("T01", "Entity jobs run once per step until done, and their clean-up runs exactly once",
  """Every active job is updated exactly once with each update of its event, until its function reports completion, and its clean-up function runs exactly once
  when the job ends, whether it completes or a newer exclusive job of the same type replaces it.
  A job of another type or event is not affected.""",
  ["histories"], "all sequences of appended jobs and updates",
  "Replacement during the life of other jobs needs longer histories than tests use.",
  ["simulation/traffic_simulator/src/job/job.cpp", "simulation/traffic_simulator/src/job/job_list.cpp"],
  [("JobList::append, update", "simulation/traffic_simulator/src/job/job_list.cpp")])

_S = "simulation/simulation_interface/"
P("S01", "Messages survive the conversion to the wire format and back unchanged",
  """Every pose, twist, time, duration, header, box, entity status, control command, traffic signal and other simulation message converted
  to its Protocol Buffers form and serialised, parsed and converted back is the same message in every field, and each field of the wire form holds the value of
  the field of that name.
  Enumerators and traffic light states keep their meaning and their printed names, unknown ones are refused, and messages sent as packets are received whole.""",
  ["inputs"], "all messages with all fields set independently, including repeated and optional ones, extreme numbers and every enumerator",
  "A dropped or swapped field shows only when each field has its own value; tests compare a few fields of fixed messages.",
  [_S + "src/conversions.cpp", _S + "include/simulation_interface/conversions.hpp", _S + "src/operators.cpp"],
  [("toProto, toMsg", _S + "src/conversions.cpp")])
P("S02", "Each simulator request reaches its own handler and its response the caller",
  """Every request a client sends is handled exactly once by the handler of that kind with the request's full contents, and the caller gets that handler's response
  unchanged, for all fourteen kinds in any order and with several clients.
  After a client closed its connection its calls send nothing and return empty responses at once.""",
  ["inputs", "histories"], "all sequences of requests of all kinds with arbitrary contents over one or two clients, with the connection closed at any point",
  "Dispatch is a table of near-identical entries; mixed-up entries only show for that kind of request.",
  [_S + "src/zmq_multi_server.cpp", _S + "src/zmq_multi_client.cpp", _S + "include/simulation_interface/zmq_multi_server.hpp"],
  [("MultiServer::poll", _S + "src/zmq_multi_server.cpp"), ("MultiClient::call", _S + "src/zmq_multi_client.cpp")])
_SS = "simulation/simple_sensor_simulator/"
P("S03", "Ego vehicle models move as their kinematic, delay, limit and gear rules say",
  """Every vehicle model moves as the kinematic bicycle model driven by the commands after the configured delay, first order lag, dead band, bias, scaling and limits,
  and reports the position, heading, speed, acceleration, yaw rate and steering of that motion.
  Geared models never move against the engaged gear and stand still in park, neutral or unknown gears; the slope-aware model brakes against its motion and holds on slopes.
  Acceleration maps are interpolated in speed and command and clamped to their range, and malformed map files are refused.""",
  ["inputs", "histories"], "all parameters, initial states and histories of commands and gears, and all acceleration maps",
  "No test covers the models; the interplay of limits, delays and gears depends on the command history.",
  [_SS + "src/vehicle_simulation/vehicle_model/sim_model_delay_steer_acc_geared.cpp", _SS + "src/vehicle_simulation/vehicle_model/sim_model_delay_steer_acc_geared_wo_fall_guard.cpp",
   _SS + "src/vehicle_simulation/vehicle_model/sim_model_delay_steer_map_acc_geared.cpp", _SS + "src/vehicle_simulation/vehicle_model/sim_model_interface.cpp"],
  [("update, calcModel, updateStateWithGear of each model", _SS + "src/vehicle_simulation/vehicle_model"), ("AccelerationMap, CSVLoader", _SS + "include/simple_sensor_simulator/vehicle_simulation/vehicle_model/sim_model_delay_steer_map_acc_geared.hpp")])
P("S04", "Occupancy grids mark the cells objects cover and the cells they hide, no others",
  """A cell of an occupancy grid is occupied exactly if the footprint of a detected object covers part of it, otherwise invisible exactly if part of it lies behind
  a footprint as seen from the ego position, and free otherwise; the traversal of a line visits exactly the cells on it, step by step.
  Grids are published once per update period, centred on the ego, stamped and described correctly, from the entities detected by the lidar (and within range if so configured).""",
  ["inputs", "histories"], "all grid shapes and resolutions, ego poses, object sizes, centres and poses, detections and update times",
  "Tests rasterise a few fixed lines; shadows, clipping at the border and non-square grids need generated layouts.",
  [_SS + "src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp", _SS + "src/sensor_simulation/occupancy_grid/grid_traversal.cpp",
   _SS + "src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp", _SS + "src/sensor_simulation/primitives/primitive.cpp"],
  [("makeInvisibleArea, addPolygon", _SS + "src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp"), ("GridTraversal", _SS + "src/sensor_simulation/occupancy_grid/grid_traversal.cpp")])

P("S05", "A lidar reports the returns of its beams and the entities they hit",
  """Once per scan period a lidar publishes, in its own frame and with the time of the scan, the nearest point at which each of its beams meets the box of an entity other than the ego
  within range, and nothing else; the entities it reports as detected are exactly those that return points. Scans appear after the configured delay, in order.
  Point noise is applied to the entities the noise parameters name, by the ellipse in which the point lies, and not to others.""",
  ["inputs", "histories"], "all beam layouts, sensor and entity poses, box sizes, noise tables and update times",
  "Tests place one box in front of one beam fan; occlusion, rotated sensors, ranges and noise selection need generated scenes.",
  [_SS + "src/sensor_simulation/lidar/lidar_sensor.cpp", _SS + "src/sensor_simulation/lidar/raycaster.cpp", _SS + "include/simple_sensor_simulator/sensor_simulation/lidar/lidar_sensor.hpp",
   _SS + "include/simple_sensor_simulator/sensor_simulation/noise_parameter_selector.hpp"],
  [("Raycaster::raycast", _SS + "src/sensor_simulation/lidar/raycaster.cpp"), ("LidarSensor::update", _SS + "include/simple_sensor_simulator/sensor_simulation/lidar/lidar_sensor.hpp")])

P("S06", "The detection sensor publishes entities in sight with the set noise and delay",
  """Once per period the detection sensor publishes the entities within range of the ego that are not far below it or under its plane, and that a lidar sees unless all are to be detected,
  with their kind, centre, twist and shape, as detected objects and, without noise and with ids that stay, as ground truth, each after its delay and in order.
  Noise moves, turns, flips and drops detected objects by the parameters of the model, configuration and ellipse that apply to the entity, with the documented autocorrelation and spread.""",
  ["inputs", "histories"], "all scenes, ego poses, ranges, delays, lidar detections, noise models, parameter tables and seeds",
  "Tests use one entity and zero noise; the history of a noise process, the delay queues and the choice of parameters need generated runs.",
  [_SS + "src/sensor_simulation/detection_sensor/detection_sensor.cpp", _SS + "include/simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp",
   _SS + "include/simple_sensor_simulator/sensor_simulation/noise_parameter_selector.hpp"],
  [("DetectionSensor::update", _SS + "src/sensor_simulation/detection_sensor/detection_sensor.cpp"), ("createEllipticalParameterSelector, findMatchingNoiseConfigForEntity", _SS + "include/simple_sensor_simulator/sensor_simulation/noise_parameter_selector.hpp")])

_C = "external/concealer/"
P("S07", "The ego's own measurements carry exactly the noise configured for each quantity",
  """Odometry, velocity reports, poses and inertial measurements are published as they are, except that each quantity has its own configured error: multiplied and added, with the configured means and standard deviations, positions along the axes of the vehicle, orientations as turns, covariances as configured; the same seed gives the same noise.
  Below the speed threshold, without noise, or when the topic's noise is off, nothing changes; frames and other covariances never do.
  The inertial sensor publishes the motion of its own entity alone, at the time of the simulation, with the configured noise and covariance and, if asked, gravity.""",
  ["inputs", "histories"], "all errors of all quantities, seeds, thresholds, poses, motions and sets of entities",
  "Tests fix a few numbers for one seed; some forty near-identical errors, thresholds and axes are mixed up only for particular quantities and poses.",
  [_C + "src/publisher.cpp", _C + "include/concealer/publisher.hpp", _SS + "src/sensor_simulation/imu/imu_sensor.cpp", _SS + "include/simple_sensor_simulator/sensor_simulation/imu/imu_sensor.hpp"],
  [("NormalDistribution::operator()", _C + "src/publisher.cpp"), ("ImuSensor::update, generateMessage", _SS + "src/sensor_simulation/imu/imu_sensor.cpp")])

_T = "simulation/traffic_simulator/"
P("T02", "Speed planning approaches the target speed within all limits and on time",
  """Step by step the planned speed of an entity approaches its target without passing it, and its acceleration, deceleration and their rates of change stay within the
  entity's dynamic constraints. The running distance of a step and of a whole approach, and the time an acceleration takes, agree with the motion that is driven.
  A speed change that shall take a given time is planned so that it is completed in that time if the limits allow it, speeding up and slowing down alike.""",
  ["inputs", "histories"], "all dynamic constraints, current speeds, accelerations, targets, step times and approach times",
  "Tests sample a few accelerations; slowing down, limits that bind late and whole approaches need generated histories.",
  [_T + "src/behavior/longitudinal_speed_planning.cpp"], [("LongitudinalSpeedPlanner", _T + "src/behavior/longitudinal_speed_planning.cpp")])
P("T03", "Lane positions and map poses agree, and lane positions stay on the road network",
  """A position given as lanelet id, distance along the lane, lateral offset and heading lies at that place and heading of the map, and mapping it back, or matching an entity's box, gives the lane
  the entity is on with the right distance, side and relative heading; poses that fit no lane match none.
  Positions beyond the ends of a lane mean the same place of a connected lane, of the route if one is given, and moving along the road or changing the reference lane keeps the place.""",
  ["inputs"], "all road networks (forks, merges, slopes, shoulders, crosswalks, rings), routes, positions inside and beyond the lanes, boxes and headings",
  "Tests convert a few poses on one map; positions beyond lane ends, slopes and ambiguous matches need generated networks.",
  [_T + "src/lanelet_wrapper/pose.cpp", _T + "src/utils/pose.cpp", _T + "src/data_type/lanelet_pose.cpp", _T + "src/lanelet_wrapper/lanelet_loader.cpp"],
  [("toMapPose, toLaneletPose, canonicalizeLaneletPose, alongLaneletPose", _T + "src/lanelet_wrapper/pose.cpp"), ("CanonicalizedLaneletPose", _T + "src/data_type/lanelet_pose.cpp")])
P("T04", "Routes, lane changes and right of way follow the road network",
  """Next and previous lanes, routes and lists of lanes ahead and behind consist of lanes that really connect in the graph of the entity's kind, changing lanes only where allowed, start and end where asked, take no detour and are empty if there is no way; lanes ahead reach the horizon.
  A route planner leads each entity through its remaining waypoints in order and drops those passed.
  A lane change goes to the requested lane along a smooth path within the constraint; signs, stop lines, speed limits, right of way and crossings are those of the map.""",
  ["inputs"], "all road networks, pairs of lanes, graph kinds, histories of waypoints, lane changes and right-of-way rules",
  "Tests query a few lanes of one map and plan few routes; caches, entity kinds and histories interact only over generated networks.",
  [_T + "src/lanelet_wrapper/route.cpp", _T + "src/lanelet_wrapper/lanelet_map.cpp", _T + "src/lanelet_wrapper/lane_change.cpp", _T + "src/utils/route.cpp", _T + "src/behavior/route_planner.cpp", _T + "include/traffic_simulator/lanelet_wrapper/lanelet_wrapper.hpp"],
  [("route, followingLanelets, previousLanelets", _T + "src/lanelet_wrapper/route.cpp"), ("RoutePlanner", _T + "src/behavior/route_planner.cpp"), ("laneChangeTrajectory", _T + "src/lanelet_wrapper/lane_change.cpp")])

P("T05", "Distances follow the lanes, and who must be waited for is found",
  """The longitudinal and lateral distance between entities, with and without their boxes, lane changes or neighbouring lanes, is that of the shortest way along the lanes with the sign of its side, and missing exactly if there is no way; distances to lane bounds, crosswalks and stop lines are those of the map.
  The entity in front, conflicting and yielding entities and obstacles on the path are found exactly if they are there, at the distance at which they are reached.""",
  ["inputs"], "all road networks, poses, boxes, routes, splines and constellations of entities",
  "Tests query a few poses of two maps; sides, lane changes, wrong branches and entities beside the path appear only over generated networks.",
  [_T + "src/utils/distance.cpp", _T + "src/lanelet_wrapper/distance.cpp", _T + "src/utils/pose.cpp", _T + "src/lanelet_wrapper/traffic_lights.cpp", _T + "include/traffic_simulator/utils/distance.hpp"],
  [("longitudinalDistance, boundingBoxLaneLongitudinalDistance", _T + "src/utils/distance.cpp"), ("distanceToStopLine, distanceToCrosswalk", _T + "src/lanelet_wrapper/distance.cpp")])

_I = "openscenario/openscenario_interpreter/"
P("T06", "Traffic signals show, tell and predict what the scenario says",
  """At every moment each traffic light shows exactly the bulbs that the phase of its controllers (durations, delays after a reference, endless cycles) and the actions since then give it, per channel, whether it is named by its own id or by a regulatory element.
  The sensors and every topic are told these states (detected states override what is recognised), V2I predictions are the phases to come at their times, conditions on signals and controllers see the same, and controllers that cannot work are refused.""",
  ["inputs", "histories"], "all sets of controllers, phases, delays, references, signals, regulatory elements, V2I features, detected states and histories of actions",
  "The unit tests set single lights; what overlapping controllers, channels, overrides and actions leave behind is only visible over whole histories.",
  [_I + "src/syntax/traffic_signal_controller.cpp", _I + "src/syntax/traffic_signal_state.cpp", _I + "src/syntax/phase.cpp", _I + "src/syntax/traffic_signals.cpp",
   _T + "src/traffic_lights/traffic_lights.cpp", _T + "src/traffic_lights/traffic_lights_base.cpp", _T + "src/traffic_lights/traffic_light.cpp", _T + "src/traffic_lights/traffic_light_publisher.cpp"],
  [("TrafficSignalController::evaluate, updatePredictions", _I + "src/syntax/traffic_signal_controller.cpp"), ("TrafficLightsBase, V2ITrafficLights", _T + "src/traffic_lights/traffic_lights_base.cpp")])

P("T07", "Trajectory followers pass their waypoints in order and at their times",
  """An entity that follows a trajectory in position mode passes its waypoints in order, each within one update's reach and, where a time is given, at that time; it moves as its speed says, changes its speed within its limits and faces along its way.
  It ends standing within 0.1 m of the last waypoint (closed trajectories go round and round), and with equal rates, a straight way and enough room and time it does arrive.
  Relative times start anew at each timed waypoint; invalid input, times that cannot be met and other modes are refused instead of moving the entity anywhere.""",
  ["inputs", "histories"], "all waypoints, times, starting poses and speeds, limits, update rates, relative or absolute timing, on roads or off them",
  "The unit tests follow a few fixed trajectories for single steps; whether the last waypoint is reached at rest and in time depends on the whole run, the rates, the rounding and the distances.",
  [_T + "src/behavior/follow_trajectory.cpp", _T + "src/behavior/follow_waypoint_controller.cpp", _T + "include/traffic_simulator/behavior/follow_waypoint_controller.hpp"],
  [("makeUpdatedStatus", _T + "src/behavior/follow_trajectory.cpp"), ("FollowWaypointController::getAcceleration", _T + "src/behavior/follow_waypoint_controller.cpp")])

P("T08", "Entities are exactly those asked for; traffic sources and sinks keep their areas",
  """The entities of a simulation are exactly those spawned and not despawned or sunk: each name once, with the type, parameters, pose and motion it was given, also after its behaviour is reset, and sensors and the status topic are told exactly these, at the time that start, steps and step time give.
  A traffic source spawns entities of its kinds at its rate after its delay, all inside its area and, as configured, on lanes, fitting them and turned.
  Sinks remove exactly the entities of their types that come near the end of a lane that leads nowhere; invalid requests are refused without effect.""",
  ["inputs", "histories"], "all histories of spawns, despawns, resets, changes, starts, frames and step times; all sources with any area, rate, delay, kinds, seed and constraints, on any road network",
  "The unit tests spawn single entities; duplicates, resets, sinks and random placements go wrong only in particular histories, places and random draws.",
  [_T + "src/api/api.cpp", _T + "include/traffic_simulator/api/api.hpp", _T + "src/entity/entity_manager.cpp", _T + "include/traffic_simulator/entity/entity_manager.hpp",
   _T + "src/traffic/traffic_source.cpp", _T + "src/traffic/traffic_sink.cpp", _T + "src/traffic/traffic_controller.cpp", _T + "src/simulation_clock/simulation_clock.cpp"],
  [("API::spawn, despawn, updateFrame", _T + "src/api/api.cpp"), ("EntityManager::update, resetBehaviorPlugin", _T + "src/entity/entity_manager.cpp"), ("TrafficSource::execute", _T + "src/traffic/traffic_source.cpp"), ("TrafficSink::execute", _T + "src/traffic/traffic_sink.cpp")])

P("I01", "A storyboard executes its elements in order, on its triggers and in its counts",
  """Every element of a storyboard goes through the states of OpenSCENARIO: it starts when its start trigger holds, runs its children, ends when all of them are complete, executes as often as its maximum execution count says, and stops on a stop trigger
  together with what runs below it. Event priorities overwrite, skip or run in parallel; condition groups, edges, delays and state conditions are evaluated as specified.
  Actions take effect exactly once per execution, exit actions end the scenario with their verdict, and the published context tells the state of every element.""",
  ["inputs", "histories"], "all storyboards of any shape, counts, priorities, triggers (groups, edges, delays, state conditions), actions and histories of the values the triggers depend on",
  "No unit test runs a storyboard; the example scenarios use few shapes, and what happens when triggers, counts, priorities and stops coincide depends on the history.",
  [_I + "include/openscenario_interpreter/syntax/storyboard_element.hpp", _I + "src/syntax/event.cpp", _I + "src/syntax/maneuver.cpp", _I + "src/syntax/act.cpp", _I + "src/syntax/maneuver_group.cpp",
   _I + "src/syntax/condition.cpp", _I + "include/openscenario_interpreter/syntax/trigger.hpp", _I + "include/openscenario_interpreter/syntax/condition_group.hpp",
   _I + "src/syntax/storyboard_element_state_condition.cpp", _I + "src/syntax/custom_command_action.cpp", _I + "src/syntax/storyboard.cpp"],
  [("StoryboardElement::evaluate", _I + "include/openscenario_interpreter/syntax/storyboard_element.hpp"), ("Event, Maneuver::overrideEvents", _I + "src/syntax/event.cpp"), ("Condition::evaluate", _I + "src/syntax/condition.cpp")])
P("I02", "Conditions on entities hold exactly if what they describe is the case",
  """A condition on the state of entities holds exactly if the measured quantity (speed and relative speed by direction, acceleration, standing still, travelled distance, distance and relative distance in every coordinate system and distance type, freespace or not, time headway, time to collision, collision, reached position, clearance) satisfies its rule at that moment.
  The measured quantity is that of the entities and positions named, as they are now; of several triggering entities any or all must satisfy it, as the condition says, and a quantity that does not exist satisfies nothing.""",
  ["inputs", "histories"], "all conditions with any rule, direction, coordinate system, distance type and positions, over histories of entities moving on generated roads",
  "No unit test evaluates a condition; signs, frames of reference, boxes and missing quantities differ only for particular constellations of entities, lanes and limits.",
  [_I + "src/syntax/distance_condition.cpp", _I + "src/syntax/relative_distance_condition.cpp", _I + "src/syntax/speed_condition.cpp", _I + "src/syntax/relative_speed_condition.cpp", _I + "src/syntax/time_headway_condition.cpp",
   _I + "include/openscenario_interpreter/syntax/time_to_collision_condition.hpp", _I + "src/syntax/collision_condition.cpp", _I + "src/syntax/reach_position_condition.cpp", _I + "src/syntax/relative_clearance_condition.cpp", _I + "src/syntax/stand_still_condition.cpp", _I + "src/syntax/acceleration_condition.cpp",
   _I + "include/openscenario_interpreter/syntax/triggering_entities.hpp", _I + "include/openscenario_interpreter/simulator_core.hpp"],
  [("DistanceCondition::evaluate", _I + "src/syntax/distance_condition.cpp"), ("RelativeDistanceCondition::distance", _I + "src/syntax/relative_distance_condition.cpp"), ("SpeedCondition::evaluate", _I + "src/syntax/speed_condition.cpp"), ("TimeHeadwayCondition::evaluate", _I + "src/syntax/time_headway_condition.cpp")])
P("I03", "Parameters, expressions, names and catalog references mean what they say",
  """An attribute given as a literal, a parameter reference, a substitution or an expression has the value so described in the type asked for, and what is not of that type or does not parse is refused; an expression follows the precedence and meaning of its operators and functions.
  A name means the innermost definition around it, or the one its prefixes lead to, and unknown or ambiguous names are errors. Parameter actions, conditions and constraints compute and compare by the type of the parameter.
  An object, given in place or by reference to a catalog entry with assigned parameters, has the declared properties.""",
  ["inputs", "histories"], "all parameter values and types, expressions, nested scopes and names, histories of parameter actions, objects, catalogs and assignments",
  "No unit test evaluates expressions, scopes or catalogs; precedence, numeric ranges and shadowing need generated terms and trees.",
  [_I + "src/evaluate.cpp", _I + "src/scope.cpp", _I + "include/openscenario_interpreter/scope.hpp", _I + "src/reader/attribute.cpp", _I + "include/openscenario_interpreter/reader/attribute.hpp", _I + "src/syntax/parameter_condition.cpp",
   _I + "src/syntax/parameter_set_action.cpp", _I + "src/syntax/parameter_modify_action.cpp", _I + "src/syntax/parameter_declaration.cpp", _I + "src/syntax/value_constraint.cpp", _I + "src/syntax/catalog_reference.cpp", _I + "src/syntax/vehicle.cpp"],
  [("evaluate, Grammar", _I + "src/evaluate.cpp"), ("EnvironmentFrame::find", _I + "include/openscenario_interpreter/scope.hpp"), ("readAttribute", _I + "include/openscenario_interpreter/reader/attribute.hpp"), ("CatalogReference::make", _I + "src/syntax/catalog_reference.cpp")])

P("I04", "An action on entities does to each of its actors what it says, for as long",
  """A speed or speed profile action brings every actor to its target at the rate it gives, in the shape it gives, and ends when all of them are there; what one request leaves open stays as it was, and a relative target goes by the speed of its entity, once or continuously.
  Teleporting, adding and deleting put an entity at the place described, in the world, on a lane or beside another entity, or remove it. Lane changes, routes, trajectories, walks and controllers reach the behavior of each actor with their parameters, and such an action ends when its actors are done.
  The simulation goes on exactly as long as the speed, acceleration and jerk of every vehicle are within the limits it declares.""",
  ["inputs", "histories"], "all actions on entities with their parameters, all casts of entities and selections, all road networks and histories of the actions",
  "No unit test runs an action of a scenario against entities; targets relative to other entities, replaced requests and selections need generated histories.",
  [_I + "src/syntax/speed_action.cpp", _I + "src/syntax/speed_profile_action.cpp", _I + "src/syntax/teleport_action.cpp", _I + "src/syntax/add_entity_action.cpp", _I + "src/syntax/delete_entity_action.cpp", _I + "src/syntax/lane_change_action.cpp",
   _I + "src/syntax/follow_trajectory_action.cpp", _I + "src/syntax/assign_route_action.cpp", _I + "src/syntax/acquire_position_action.cpp", _I + "src/syntax/assign_controller_action.cpp", _I + "include/openscenario_interpreter/simulator_core.hpp",
   _T + "src/entity/entity_base.cpp", _T + "src/entity/vehicle_entity.cpp", _T + "src/entity/pedestrian_entity.cpp", _T + "src/api/api.cpp"],
  [("SpeedAction::start, SpeedAction::accomplished", _I + "src/syntax/speed_action.cpp"), ("ActionApplication", _I + "include/openscenario_interpreter/simulator_core.hpp"), ("EntityBase::requestSpeedChange", _T + "src/entity/entity_base.cpp")])
