COMMON = ["pbt.cpp", "ref.cpp", "b2ref.cpp"]
SUITES = {
    "P01": dict(src=["p01.cpp"] + COMMON, lib="tree", opt="-O0"),
    "P02": dict(src=["p02.cpp"] + COMMON, lib="tree", opt="-O0"),
    "P03": dict(src=["p03.cpp"] + COMMON, lib="system", opt="-O0"),
    "P05": dict(src=["p05.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P07": dict(src=["p07.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P08": dict(src=["p08.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P04": dict(src=["p04.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P10": dict(src=["p10.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P24": dict(src=["p24.cpp", "pbt.cpp", "ref.cpp"], lib="none", opt="-O0"),
    "P11": dict(src=["p11.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P26": dict(src=["p26.cpp"] + COMMON, lib="tree", opt="-O0"),
    "P25": dict(src=["p25.cpp"] + COMMON, lib="tree", opt="-O0"),
    "P12": dict(src=["p12.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P13": dict(src=["p13.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P06": dict(src=["p06.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P14": dict(src=["p14.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P15": dict(src=["p15.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P17": dict(src=["p17.cpp", "pbt.cpp"], lib="none", opt="-O0"),
    "P16": dict(src=["p16.cpp", "pbt.cpp"], lib="system", opt="-O0"),
    "P18": dict(src=["p18.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P19": dict(src=["p19.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P20": dict(src=["p20.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P21": dict(src=["p21.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P22": dict(src=["p22.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P27": dict(src=["p27.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P23": dict(src=["p23.cpp", "p23_double.cpp", "p23_multiple.cpp", "p23_adaptive.cpp", "p23_reference.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P09": dict(src=["p09.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P28": dict(src=["p28.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
    "P29": dict(src=["p29.cpp", "p29_td.cpp", "p29_mh.cpp", "p29_user.cpp", "p29_shape.cpp", "sysgen.cpp"] + COMMON, lib="system", opt="-O0"),
}
