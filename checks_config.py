"""What each check is built from. Read by ./check."""


def typed(src, types, extra=()):
    """One translation unit per element type, compiled side by side."""
    return [(src, ["-DTY=" + t, "-DQN=%d" % n] + list(extra)) for t, n in types]


CHECKS = {}
CHECKS["P01"] = {
    "src": ["checks/P01_known.cpp"] + typed("checks/P01.cpp", [("float", 4000), ("int32_t", 3000), ("uint8_t", 2000), ("int16_t", 2000), ("double", 2000), ("uint32_t", 1000)]),
}
CHECKS["P02"] = {"src": ["checks/P02_int.cpp"] + typed("checks/P02.cpp", [("float", 24000), ("double", 16000)])}
CHECKS["P03"] = {"src": typed("checks/P03.cpp", [("float", 15000), ("int32_t", 12000), ("uint8_t", 9000), ("double", 6000)])}
CHECKS["P04"] = {"src": typed("checks/P04.cpp", [("float", 8000), ("int32_t", 6000), ("uint8_t", 5000), ("double", 5000)])}
CHECKS["P05"] = {"src": ["checks/P05_known.cpp"] + typed("checks/P05.cpp", [("float", 12000), ("int32_t", 8000), ("double", 6000), ("uint8_t", 4000), ("int16_t", 4000)])}
CHECKS["P06"] = {"src": typed("checks/P06.cpp", [("float", 8000), ("double", 6000)], ["-DTYFLOAT=1"]) + typed("checks/P06.cpp", [("int32_t", 8000), ("uint8_t", 5000)], ["-DTYFLOAT=0"])}
CHECKS["P07"] = {"src": ["checks/P07_conv.cpp"] + typed("checks/P07.cpp", [("float", 30000), ("int32_t", 30000), ("uint8_t", 20000), ("double", 20000)])}
CHECKS["P08"] = {"src": typed("checks/P08.cpp", [("float", 60000), ("int32_t", 40000), ("uint8_t", 20000), ("double", 40000)])}
CHECKS["P09"] = {"src": [("checks/P09.cpp", ["-DPART=%d" % i]) for i in range(4)]}
CHECKS["P10"] = {"src": ["checks/P10.cpp"]}
CHECKS["P11"] = {"src": ["checks/P11.cpp"]}
CHECKS["P12"] = {"src": typed("checks/P12.cpp", [("float", 40000), ("int32_t", 30000), ("uint8_t", 20000), ("double", 20000)])}
CHECKS["P13"] = {"src": typed("checks/P13.cpp", [("float", 12000), ("int32_t", 10000), ("uint8_t", 6000), ("double", 8000)])}
CHECKS["P14"] = {"src": ["checks/P14_known.cpp"] + typed("checks/P14.cpp", [("double", 20000), ("float", 8000), ("int32_t", 10000)])}
CHECKS["P15"] = {"src": typed("checks/P15.cpp", [("int32_t", 6000), ("uint8_t", 4000), ("double", 5000)])}
CHECKS["P16"] = {"src": ["checks/P16.cpp"]}
CHECKS["P17"] = {"src": typed("checks/P17.cpp", [("float", 800), ("int32_t", 500), ("uint8_t", 600), ("double", 800), ("uint16_t", 300)])}
CHECKS["P18"] = {"src": ["checks/P18.cpp"]}
CHECKS["P19"] = {"src": ["checks/P19.cpp"], "inc": ["harness/fakempi"], "repo_inc": ["."], "repo_deps": ["programs/parallel_priority_flood"]}
CHECKS["P20"] = {"src": ["checks/P20.cpp"], "inc": ["harness/fakempi"], "repo_inc": ["."], "repo_deps": ["programs/parallel_d8_accum"]}
CHECKS["P21"] = {"src": typed("checks/P21.cpp", [("double", 8000)], ["-DTYDOUBLE"]) + typed("checks/P21.cpp", [("float", 8000), ("int32_t", 6000), ("uint8_t", 6000), ("int16_t", 4000), ("uint16_t", 4000), ("int8_t", 4000), ("uint32_t", 4000), ("int64_t", 4000), ("uint64_t", 4000)]), "mode": "plain", "pymodule": True}
CHECKS["P22"] = {"src": typed("checks/P22.cpp", [("double", 2000)], ["-DTYDOUBLE"]) + typed("checks/P22.cpp", [("float", 2000), ("int32_t", 1600), ("uint8_t", 1600), ("uint16_t", 1000)]) + typed("checks/P22.cpp", [("int16_t", 1000), ("int8_t", 500), ("uint32_t", 1000), ("int64_t", 500), ("uint64_t", 500)], ["-DSAVE_ONLY"]), "mode": "plain", "pymodule": True}
CHECKS["P23"] = {"src": [("checks/P23.cpp", ["-DPART%d" % i]) for i in range(3)], "mode": "plain", "libs": ["-rdynamic", "-ldl"], "apps": {"skip": ["rd_surface_area", "rd_loop_check"]}}
CHECKS["P24"] = {"src": [("harness/gompsched.cpp", ["-fno-sanitize=thread"])] + typed("checks/P24.cpp", [("float", 20000)], ["-DPART0"]) + typed("checks/P24.cpp", [("int32_t", 14000), ("double", 14000), ("uint8_t", 8000)]), "mode": "tsan", "libs": ["-Wl,--allow-multiple-definition"]}
CHECKS["P25"] = {"src": typed("checks/P25.cpp", [("float", 16000), ("double", 12000), ("int32_t", 16000), ("uint8_t", 10000)]), "libs": ["-Wl,--allow-multiple-definition"]}
CHECKS["P26"] = {"src": typed("checks/P26.cpp", [("float", 30000), ("double", 20000), ("int32_t", 30000), ("uint8_t", 20000)])}
