#!/usr/bin/env python3
"""gen_cfg.py FILE.cfg OUTDIR: generate the Config header of a dynamic_reconfigure description."""
import os, sys, types
cfg, out = sys.argv[1], sys.argv[2]
C = {"double": "double", "int": "int", "bool": "bool", "str": "std::string"}


class ParameterGenerator:
    def __init__(self):
        self.ps = []

    def add(self, name, paramtype, level=0, description="", default=None, min=None, max=None, edit_method=""):
        if default is None:
            default = {"double": 0.0, "int": 0, "bool": False, "str": ""}[paramtype]
        self.ps.append((name, paramtype, level, default, min, max))

    def enum(self, *a, **k):
        return ""

    def const(self, *a, **k):
        return None

    def generate(self, pkg, node, name):
        d = os.path.join(out, pkg)
        os.makedirs(d, exist_ok=True)

        def lit(t, v):
            return ("true" if v else "false") if t == "bool" else '"%s"' % v if t == "str" else ("%r" % float(v) if t == "double" else str(int(v)))
        with open(os.path.join(d, name + "Config.h"), "w") as f:
            f.write("#pragma once\n#include <string>\n#include <limits>\nnamespace %s\n{\nclass %sConfig\n{\npublic:\n" % (pkg, name))
            for n, t, l, dv, lo, hi in self.ps:
                f.write("  %s %s = %s;\n" % (C[t], n, lit(t, dv)))
            f.write("  template <class V> void visit(V&& v)\n  {\n")
            for n, t, l, dv, lo, hi in self.ps:
                a = {"double": "-std::numeric_limits<double>::infinity()", "int": "std::numeric_limits<int>::min()", "bool": "false", "str": "std::string()"}[t] if lo is None else lit(t, lo)
                b = {"double": "std::numeric_limits<double>::infinity()", "int": "std::numeric_limits<int>::max()", "bool": "true", "str": "std::string()"}[t] if hi is None else lit(t, hi)
                f.write('    v("%s", %s, static_cast<%s>(%s), static_cast<%s>(%s), %du);\n' % (n, n, C[t], a, C[t], b, l))
            f.write("  }\n  static const %sConfig& __getDefault__() { static %sConfig c; return c; }\n};\n}  // namespace %s\n" % (name, name, pkg))
        return 0


m = types.ModuleType("dynamic_reconfigure.parameter_generator_catkin")
m.ParameterGenerator = ParameterGenerator
for t in ("double", "int", "bool", "str"):
    setattr(m, t + "_t", t)
sys.modules["dynamic_reconfigure"] = types.ModuleType("dynamic_reconfigure")
sys.modules["dynamic_reconfigure.parameter_generator_catkin"] = m
sys.modules["dynamic_reconfigure.parameter_generator"] = m
try:
    exec(compile(open(cfg).read(), cfg, "exec"), {"__name__": "__main__"})
except SystemExit as e:
    sys.exit(e.code or 0)
