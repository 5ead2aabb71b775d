"""What each check is built from and how large its runs are."""
CXX = "g++"
COMMON_FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-pthread", "-I{verif}/lib"]
OWN_WARN = ["-Wall", "-Wextra", "-Wno-unused-parameter", "-Wno-unused-function"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null", "-fno-sanitize-recover=undefined"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
import os as _os
_V = _os.path.dirname(_os.path.dirname(_os.path.abspath(__file__)))
COMMON_FLAGS = [f.replace("{verif}", _V) for f in COMMON_FLAGS]

R = "{repo}"
ARITH = R + "/common/math/arithmetic/include"
GEOM = R + "/common/math/geometry/include"
EXC = R + "/common/scenario_simulator_exception/include"
JUNIT = R + "/common/simple_junit/include"
MONITOR = R + "/common/status_monitor/include"
CONCEALER = R + "/external/concealer/include"
AGNO = R + "/common/agnocast_wrapper/include"
GETP = R + "/common/get_parameter/include"
INTERP = R + "/openscenario/openscenario_interpreter/include"
TRAFFIC = R + "/simulation/traffic_simulator/include"
SENSOR = R + "/simulation/simple_sensor_simulator/include"
IFACE = R + "/simulation/simulation_interface/include"
RANDOM = R + "/test_runner/random_test_runner/include"
GAMMA = R + "/simulation/context_gamma_planner/include"
SHIM = ["{verif}/shim/include", "{build}/gen"]
EIGEN = "/usr/include/eigen3"
PROTO = "{build}/proto"

GEOM_SRC = R + "/common/math/geometry/src/"
GEOM_ALL = [GEOM_SRC + "**/*.cpp"]
ISRC = R + "/openscenario/openscenario_interpreter/src/"

GEOM_INC = [GEOM, ARITH, EXC]

CHECKS = {}


def check(pid, harness, sources=(), inc=(), shim=False, **kw):
    spec = dict(kw)
    spec["sources"] = ["{verif}/harness/" + harness] + list(sources)
    spec["inc"] = list(inc)
    spec["sysinc"] = (SHIM if shim else []) + [EIGEN]
    if kw.get("proto"):
        spec["sysinc"].append(PROTO)
        spec.setdefault("libs", [])
        spec["libs"] = spec["libs"] + ["-lprotobuf"]
    spec["shim"] = shim
    spec["libs"] = spec.get("libs", []) + ["-lpthread"]
    CHECKS[pid] = spec



exec(open(_os.path.join(_V, "tools", "checks_list.py")).read())
