"""Turns ROS .msg/.srv files into plain C++ structs with the members, constants, pointer
aliases and builders that rosidl_generator_cpp gives them."""
import glob, os, re
from vbuild import write_if_changed

PRIM = {"bool": "bool", "byte": "unsigned char", "char": "unsigned char", "float32": "float",
        "float64": "double", "int8": "int8_t", "uint8": "uint8_t", "int16": "int16_t",
        "uint16": "uint16_t", "int32": "int32_t", "uint32": "uint32_t", "int64": "int64_t",
        "uint64": "uint64_t", "string": "std::string", "wstring": "std::u16string"}

def snake(n):
    n = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", n)
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n).lower()

def parse(text, pkg):
    fields, consts = [], []
    for line in text.splitlines():
        line = line.split("#")[0].strip() if '"' not in line else line.strip()
        if not line: continue
        m = re.match(r"^(\S+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(.+)$", line)
        if m:
            consts.append((m.group(1), m.group(2), m.group(3).strip())); continue
        m = re.match(r"^(\S+)\s+([a-z]\w*)(?:\s+(.+))?$", line)
        if not m: raise ValueError(f"{pkg}: {line}")
        fields.append((m.group(1), m.group(2), m.group(3)))
    return fields, consts

def ctype(t, pkg, inc):
    m = re.match(r"^([\w/]+?)(?:<=(\d+))?(\[(<=)?(\d*)\])?$", t)
    base, arr, bounded, n = m.group(1), m.group(3), m.group(4), m.group(5)
    if base in PRIM: c = PRIM[base]
    else:
        if base == "Header" : base = "std_msgs/Header"
        p, name = base.split("/")[0] if "/" in base else pkg, base.split("/")[-1]
        inc.append(f"{p}/msg/{snake(name)}.hpp")
        c = f"::{p}::msg::{name}"
    if arr is None: return c, base in PRIM and base not in ("string", "wstring")
    if n and not bounded: return f"std::array<{c}, {n}>", False
    return f"std::vector<{c}>", False

def struct(name, fields, consts, pkg, inc):
    o = [f"struct {name}\n{{"]
    names = []
    for t, f, d in fields:
        c, prim = ctype(t, pkg, inc)
        if d is not None: init = f" = {d}" if not d.startswith("[") else ""
        elif prim: init = " = 0" if c != "bool" else " = false"
        else: init = "{}"
        o.append(f"  using _{f}_type = {c};\n  {c} {f}{init};\n  {name} & set__{f}(const {c} & arg) {{ {f} = arg; return *this; }}")
        names.append((f, c))
    for t, n, v in consts:
        c = PRIM[t]
        if c == "std::string": o.append(f"  inline static const std::string {n} = {v};")
        else: o.append(f"  static constexpr {c} {n} = static_cast<{c}>({v.replace('True','true').replace('False','false')});")
    o.append(f"  using SharedPtr = std::shared_ptr<{name}>;\n  using ConstSharedPtr = std::shared_ptr<{name} const>;")
    o.append(f"  using UniquePtr = std::unique_ptr<{name}>;\n  using ConstUniquePtr = std::unique_ptr<{name} const>;")
    eq = " && ".join(f"{f} == o.{f}" for f, _ in names) or "true"
    o.append(f"  bool operator==(const {name} & o) const {{ (void)o; return {eq}; }}\n  bool operator!=(const {name} & o) const {{ return !(*this == o); }}")
    visit = " ".join(f'v("{f}", {f});' for f, _ in names)
    o.append(f"  template <class V> void verif_fields(V && v) {{ (void)v; {visit} }}\n  template <class V> void verif_fields(V && v) const {{ (void)v; {visit} }}")
    o.append("};")
    return "\n".join(o), names

def builders(pkg, ns, name, names):
    q = f"::{pkg}::{ns}::{name}"
    o = [f"namespace {pkg}\n{{\nnamespace {ns}\n{{\nnamespace builder\n{{"]
    for k in range(len(names) - 1, -1, -1):
        f, c = names[k]
        last = k == len(names) - 1
        nxt = q if last else f"Init_{name}_{names[k+1][0]}"
        body = "m.%s = std::move(arg); return std::move(m);" % f if last else \
               "m.%s = std::move(arg); return %s(m);" % (f, nxt)
        ctor = f"explicit Init_{name}_{f}({q} & x) : m(std::move(x)) {{}}"
        if k == 0: ctor = f"Init_{name}_{f}() {{}}"
        o.append(f"class Init_{name}_{f} {{\n  {q} m;\npublic:\n  {ctor}\n  {nxt} {f}({c} arg) {{ {body} }}\n}};")
    o.append("}\n}\n")
    first = f"::{pkg}::{ns}::builder::Init_{name}_{names[0][0]}()" if names else f"{q}()"
    o.append(f"template <typename MessageType> auto build();\ntemplate <> inline auto build<{q}>() {{ return {first}; }}\n}}")
    return "\n".join(o)

HEAD = "#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <utility>\n#include <vector>\n"

def gen_msg(pkg, name, text, out):
    inc = []
    body, names = struct(name, *parse(text, pkg), pkg, inc)
    guard = f"MSG__{pkg}__{name}_HPP_"
    h = f"#ifndef {guard}\n#define {guard}\n" + HEAD + "".join(f"#include <{i}>\n" for i in dict.fromkeys(inc))
    h += f"namespace {pkg}\n{{\nnamespace msg\n{{\n{body}\n}}\n}}\n{builders(pkg, 'msg', name, names)}\n#endif\n"
    write_if_changed(f"{out}/{pkg}/msg/{snake(name)}.hpp", h)

def gen_srv(pkg, name, text, out):
    inc = []
    req, res = (text.split("---") + [""])[:2]
    b1, n1 = struct(f"{name}_Request", *parse(req, pkg), pkg, inc)
    b2, n2 = struct(f"{name}_Response", *parse(res, pkg), pkg, inc)
    guard = f"SRV__{pkg}__{name}_HPP_"
    h = f"#ifndef {guard}\n#define {guard}\n" + HEAD + "".join(f"#include <{i}>\n" for i in dict.fromkeys(inc))
    h += f"namespace {pkg}\n{{\nnamespace srv\n{{\n{b1}\n{b2}\nstruct {name}\n{{\n  using Request = {name}_Request;\n  using Response = {name}_Response;\n}};\n}}\n}}\n"
    h += builders(pkg, "srv", f"{name}_Request", n1) + builders(pkg, "srv", f"{name}_Response", n2).replace("template <typename MessageType> auto build();\n", "") + "\n#endif\n"
    write_if_changed(f"{out}/{pkg}/srv/{snake(name)}.hpp", h)

def generate(repo, verif, out):
    done = set()
    srcs = []
    for root in (repo + "/simulation", repo + "/openscenario", repo + "/common", repo + "/external"):
        srcs += glob.glob(f"{root}/*/msg/*.msg") + glob.glob(f"{root}/*/srv/*.srv")
    srcs += glob.glob(f"{verif}/shim/msgs/*/msg/*.msg") + glob.glob(f"{verif}/shim/msgs/*/srv/*.srv")
    for f in sorted(srcs):
        d, base = os.path.split(f)
        pkg = os.path.basename(os.path.dirname(d))
        name, ext = os.path.splitext(base)
        (gen_msg if ext == ".msg" else gen_srv)(pkg, name, open(f).read(), out)
        done.add((pkg, name))
    bundle = f"{verif}/shim/msgs/all.txt"
    if os.path.exists(bundle):
        for block in re.split(r"^===\s*", open(bundle).read(), flags=re.M)[1:]:
            head, _, text = block.partition("\n")
            pkg, kind, name = head.strip().split("/")
            if (pkg, name) in done: continue
            (gen_msg if kind == "msg" else gen_srv)(pkg, name, text, out)
