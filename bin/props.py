import glob
import os

_SRC = sorted("src/" + os.path.basename(f) for f in glob.glob(os.path.join(os.environ.get("VF_REPO", "/repo"), "src", "*.cpp")))
BASE = [f for f in _SRC if f not in ("src/data_raster.cpp", "src/db_mongoc.cpp")]
RAST = BASE + ["src/data_raster.cpp"]
MONGO = RAST + ["src/db_mongoc.cpp"]


def simple(prop, cases, libs=BASE, **kw):
    d = dict(name=prop.lower(), tus=[prop.lower() + ".cpp"], libs=libs, cases=cases)
    d.update(kw)
    return dict(parts=[d])


T10 = ["int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "float", "double"]

TM = [("float", "int32_t"), ("double", "uint8_t"), ("int32_t", "int32_t"), ("uint8_t", "float"), ("int16_t", "int16_t"), ("float", "float"), ("double", "double"), ("uint16_t", "int32_t"), ("int64_t", "double"),
      ("uint32_t", "uint8_t"), ("int8_t", "int16_t"), ("uint64_t", "int64_t")]


def typed(prop, cases, types=T10, extra=(), libs=RAST, **kw):
    """One unit of the harness per cell type (VT), or per pair of cell and mask type (VT, VM)."""
    f = prop.lower() + ".cpp"
    tus = [f] + list(extra)
    for t in types:
        tus.append((f, ["-DVT=" + t] if isinstance(t, str) else ["-DVT=" + t[0], "-DVM=" + t[1]]))
    d = dict(name=prop.lower(), tus=tus, libs=libs, cases=cases, opt="-O0")
    d.update(kw)
    return dict(parts=[d])


PROPS = {
    "C01": typed("C01", (4000, 150000)),
    "C02": typed("C02", (5000, 150000)),
    "C03": typed("C03", (12000, 400000)),
    "C04": typed("C04", (5000, 150000)),
    "C05": typed("C05", (8000, 300000), types=TM),
    "C06": typed("C06", (8000, 150000)),
    "C07": typed("C07", (8000, 300000)),
    "C08": typed("C08", (10000, 150000)),
    "C09": typed("C09", (6000, 200000), types=TM),
    "C10": typed("C10", (6000, 200000), types=TM),
    "C11": typed("C11", (8000, 150000)),
    "C12": typed("C12", (8000, 150000)),
    "C13": dict(parts=typed("C13", (6000, 200000), types=TM)["parts"]
                + typed("C13", (400, 20000), types=TM[:6], name="c13m", san="none", memcheck=True, flags=["-DVF_MEMCHECK"], opt="-O1", slow=True, budget=(90, 400))["parts"]),
    "C14": dict(parts=typed("C14", (1600, 40000), types=TM[:6], extra=["gomp_shim.cpp"], name="c14t", san="tsan", gomp_shim=True, flags=["-DVF_SHIM"], opt="-O1", slow=True, budget=(200, 500))["parts"]
                + typed("C14", (1200, 20000), types=TM, name="c14", budget=(120, 250))["parts"]),
    "C15": typed("C15", (8000, 150000), flags=["-fno-sanitize=vptr"]),
    "C16": dict(parts=simple("C16", (1200, 40000), tus=[("c16.cpp", ["-std=c++14"])], libs=RAST, opt="-O0", slow=True, budget=(120, 450))["parts"]
                + simple("C16", (500, 15000), name="c16m", tus=[("c16m.cpp", ["-std=c++14"])], libs=MONGO, mongo=True, opt="-O0", slow=True, budget=(120, 350))["parts"]
                + [dict(name="cli", tus=["@apps/mask_rasterio.cpp"], libs=RAST, own_main=True, tool=True),
                   dict(name="cli_mongo", tus=["@apps/mask_rasterio.cpp"], libs=MONGO, own_main=True, tool=True, mongo=True)]),
    "C17": typed("C17", (3000, 100000), types=TM, libs=MONGO, mongo=True),
    "C18": simple("C18", (3000, 100000), libs=MONGO, mongo=True),
    "C19": simple("C19", (12000, 400000), libs=MONGO, mongo=True, flags=["-fsanitize=float-cast-overflow"]),
    "C20": simple("C20", (12000, 400000)),
    "C21": simple("C21", (12000, 400000)),
    "C22": simple("C22", (40000, 300000)),
    "C23": simple("C23", (40000, 300000)),
    "C24": simple("C24", (40000, 300000)),
    "C25": simple("C25", (20000, 400000)),
    "C26": simple("C26", (24000, 300000), ldflags=["-Wl,--wrap=readdir"]),
    "C27": simple("C27", (8000, 200000)),
    "C28": simple("C28", (14000, 300000)),
    "C29": simple("C29", (7000, 200000), flags=["-fsanitize=float-cast-overflow"]),
    "C30": simple("C30", (12000, 300000)),
}
