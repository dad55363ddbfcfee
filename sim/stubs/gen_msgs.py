#!/usr/bin/env python3
"""Minimal stand-in for the rosidl C++ generator: .msg files -> C++ structs with value semantics."""
import os, re, sys
src, out = sys.argv[1], sys.argv[2]
pkg = "rmw_dds_common"
d = os.path.join(out, pkg, "msg")
os.makedirs(d, exist_ok=True)
prim = {"bool": "bool", "byte": "unsigned char", "char": "uint8_t", "float32": "float", "float64": "double",
        "string": "std::string", "wstring": "std::u16string"}
for n in ("int8", "int16", "int32", "int64"):
    prim[n] = n + "_t"; prim["u" + n] = "u" + n + "_t"
snake = lambda s: re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", s).lower()
for fn in sorted(os.listdir(src)):
    if not fn.endswith(".msg"):
        continue
    name = fn[:-4]
    fields, consts, inc = [], [], []
    for line in open(os.path.join(src, fn)):
        line = line.split("#")[0].strip()
        if not line:
            continue
        t, rest = line.split(None, 1)
        if "=" in rest.split()[0] or (len(rest.split()) > 1 and rest.split()[1].startswith("=")):
            cn, cv = [x.strip() for x in rest.split("=", 1)]
            consts.append((t, cn, cv)); continue
        fname = rest.split()[0]
        m = re.match(r"^([A-Za-z0-9_/]+)(<=\d+)?(\[(<=)?(\d*)\])?$", t)
        base, arr, bounded, n = m.group(1), m.group(3), m.group(4), m.group(5)
        if base in prim:
            ct = prim[base]
        else:
            b = base.split("/")[-1]
            inc.append(snake(b)) if snake(b) not in inc else None; ct = "::%s::msg::%s" % (pkg, b)
        if arr:
            ct = "std::array<%s, %s>" % (ct, n) if n and not bounded else "std::vector<%s>" % ct
        fields.append((ct, fname, base in prim and base not in ("string", "wstring") and (not arr or (n and not bounded))))
    g = "%s__MSG__%s_HPP_" % (pkg.upper(), snake(name).upper())
    s = "#ifndef %s\n#define %s\n#include <algorithm>\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n" % (g, g)
    s += "".join('#include "%s/msg/%s.hpp"\n' % (pkg, i) for i in inc)
    s += "namespace %s\n{\nnamespace msg\n{\nstruct %s\n{\n  using SharedPtr = std::shared_ptr<%s>;\n" % (pkg, name, name)
    for t, cn, cv in consts:
        s += "  static constexpr %s %s = %s;\n" % (prim[t], cn, cv)
    for ct, fnm, z in fields:
        s += "  using _%s_type = %s;\n  _%s_type %s%s;\n" % (fnm, ct, fnm, fnm, "{}" if z else "")
    s += "  bool operator==(const %s & o) const {return %s;}\n" % (name, " && ".join("%s == o.%s" % (f, f) for _, f, _ in fields) or "true")
    s += "  bool operator!=(const %s & o) const {return !(*this == o);}\n};\n}\n}\n#endif\n" % name
    p = os.path.join(d, snake(name) + ".hpp")
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
