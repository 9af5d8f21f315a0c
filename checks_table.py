# check id -> flavour and sources (under checks/)
CHECKS = {
  "R01": dict(flavor="t", src=["r01.cpp", "render_ops.cpp", "res.cpp"], quick=32, thorough=600),
  "R02": dict(flavor="t", src=["r02.cpp", "render_ops.cpp", "res.cpp"], quick=30, thorough=600),
  "R03": dict(flavor="t", src=["r03.cpp", "render_ops.cpp", "res.cpp"], quick=30, thorough=600),
  "F01": dict(flavor="t", src=["f01.cpp", "render_ops.cpp", "res.cpp"], quick=25, thorough=400),
  "R04": dict(flavor="t", src=["r04.cpp", "render_ops.cpp", "res.cpp"], quick=35, thorough=600),
}
OBJ = ["objs.cpp", "render_ops.cpp", "res.cpp"]
CHECKS["M01"] = dict(flavor="t", src=["m01.cpp"] + OBJ, quick=25, thorough=600)
CHECKS["T02"] = dict(flavor="t", src=["t02.cpp"] + OBJ, quick=30, thorough=600)
CHECKS["T01"] = dict(flavor="t", src=["t01.cpp"] + OBJ, quick=30, thorough=600)
CHECKS["F02"] = dict(flavor="a", src=["f02.cpp", "imggen.cpp", "render_ops.cpp", "res.cpp"], quick=35, thorough=600)
CHECKS["C01"] = dict(flavor="a", src=["c01.cpp", "render_ops.cpp", "res.cpp"], quick=30, thorough=600)
CHECKS["F03"] = dict(flavor="a", src=["f03.cpp", "fontgen.cpp", "render_ops.cpp", "res.cpp"], quick=35, thorough=600)
CHECKS["F04"] = dict(flavor="a", src=["f04.cpp", "render_ops.cpp", "res.cpp"], quick=30, thorough=600)
CHECKS["R05"] = dict(flavor="t", src=["r05.cpp", "render_ops.cpp", "res.cpp"], quick=30, thorough=600)
CHECKS["R06"] = dict(flavor="t", src=["r06.cpp", "render_ops.cpp", "res.cpp"], quick=25, thorough=600)
CHECKS["T05"] = dict(flavor="t", src=["t05.cpp", "fontgen.cpp", "render_ops.cpp", "res.cpp"], quick=25, thorough=600)
CHECKS["L01"] = dict(flavor="t", src=["l01.cpp", "render_ops.cpp", "res.cpp"], quick=25, thorough=600)
