"""What each property's check runs: the design models TLC explores, and the drivers whose recorded
behaviour is validated against the specification."""
ASSUMPTIONS = ["the absent git submodules (logging, thread pool) are replaced by stubs in /verif/stubs",
               "gcc 13, x86-64, -O1 -frounding-math; MPFR and GMP are trusted",
               "TLC and the exact-rational Java class Rat (compared with plain TLA+ definitions by RatSelfTest) are trusted"]

def c01(c):
    c.model("RatSelfTest")
    c.model("FloatRawMC")
    c.conform("num_raw", "FloatRawTrace", c.scale(60000, 1200000))
    c.conform("num_conv", "FloatRawTrace", c.scale(40000, 600000))

def c02(c):
    c.model("IntervalMC")
    c.conform("num_bnd", "NumTrace", c.scale(64000, 1500000))
    c.conform("num_mixed", "NumTrace", c.scale(24000, 500000))

def c03(c):
    c.model("IntervalMC")
    c.conform("num_ball", "NumTrace", c.scale(64000, 1500000))
    c.conform("num_dir", "NumTrace", c.scale(48000, 1000000))
    c.conform("num_mixed", "NumTrace", c.scale(24000, 500000))

def c04(c):
    c.model("ExactMC")
    c.conform("num_exact", "ExactTrace", c.scale(120000, 2500000))

def c05(c):
    c.model("RealMC")
    c.conform("num_real", "RealTrace", c.scale(10000, 200000), drive_timeout=c.scale(120,900))

def c06(c):
    c.model("KleeneMC")
    c.conform("num_logic", "LogicTrace", c.scale(16000, 400000))
    for d in ("num_bnd", "num_ball", "num_dir", "num_mixed"):
        c.conform(d, "NumTrace", c.scale(100000, 2000000), mode="only:cmp")
        if d != "num_mixed":
            c.conform(d, "NumTrace", c.scale(100000, 2000000), mode="only:rel")

def c07(c):
    c.model("PolyMC")
    c.conform("core_poly", "PolyTrace", c.scale(30000, 600000))

def c08(c):
    c.model("PolyMC")
    c.conform("core_diff", "DiffTrace", c.scale(30000, 400000))

def c09(c):
    c.conform("core_linalg", "LinTrace", c.scale(24000, 400000))

def c10(c):
    c.conform("core_tm", "TaylorTrace", c.scale(5000, 60000), shards=24)

def c12(c):
    c.conform("core_expr", "ExprTrace", c.scale(40000, 700000))

def c13(c):
    c.conform("core_func", "FuncTrace", c.scale(30000, 500000))
    c.conform("core_aff", "AffTrace", c.scale(40000, 600000))
    c.conform("core_proc", "ProcTrace", c.scale(24000, 400000), mode="eval")

def c14(c):
    c.model("BoxMC")
    c.conform("core_ivl", "IvlTrace", c.scale(40000, 600000))

def c17(c):
    c.conform("core_proc", "ProcTrace", c.scale(60000, 900000), mode="red")
    c.conform("geo_con", "ProcTrace", c.scale(40000, 600000), mode="red")
    c.conform("geo_con", "ProcTrace", c.scale(4000, 60000), mode="feas")

def c26(c):
    c.model("LRUMC")
    c.conform("num_util", "UtilTrace", c.scale(16000, 300000), mode=c.scale("","deep"))

PROPS = {
    "C01": (["num_raw","num_conv"], c01),
    "C02": (["num_bnd","num_mixed"], c02),
    "C03": (["num_ball","num_dir","num_mixed"], c03),
    "C04": (["num_exact"], c04),
    "C05": (["num_real"], c05),
    "C06": (["num_logic","num_bnd","num_ball","num_dir","num_mixed"], c06),
    "C07": (["core_poly"], c07),
    "C08": (["core_diff"], c08),
    "C09": (["core_linalg"], c09),
    "C10": (["core_tm"], c10),
    "C12": (["core_expr"], c12),
    "C13": (["core_func","core_aff","core_proc"], c13),
    "C14": (["core_ivl"], c14),
    "C17": (["core_proc","geo_con"], c17),
    "C26": (["num_util"], c26),
}
