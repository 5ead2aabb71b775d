#!/usr/bin/env python3
"""Generate C++ message structs (ROS 2 layout) from .msg/.srv text.

usage: genmsg.py OUT_INCLUDE_DIR REPO
Reads shim/msgs.txt (third-party messages) and the .msg/.srv files the repository itself ships.
Only writes files whose content changed, so that timestamps stay stable.
"""
import glob, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
PRIM = {
    "bool": "bool", "byte": "uint8_t", "char": "uint8_t",
    "int8": "int8_t", "uint8": "uint8_t", "int16": "int16_t", "uint16": "uint16_t",
    "int32": "int32_t", "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t",
    "float32": "float", "float64": "double", "string": "std::string",
}

def snake(name):
    s = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", name)
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", s).lower()

def ctype(pkg, t, deps):
    m = re.match(r"^(.*?)(\[(<=)?(\d*)\])?$", t)
    base, arr, bounded, n = m.group(1), m.group(2), m.group(3), m.group(4)
    if base in PRIM:
        c = PRIM[base]
    else:
        p, nme = base.split("/") if "/" in base else (pkg, base)
        deps.add((p, nme))
        c = f"::{p}::msg::{nme}"
    if arr:
        if n and not bounded:
            return f"std::array<{c}, {n}>", base in PRIM
        return f"std::vector<{c}>", False
    return c, base in PRIM

def struct(pkg, name, text, deps, build=False):
    fields, consts = [], []
    for line in text.splitlines():
        if not re.match(r'.*"', line):
            line = line.split("#")[0]
        line = line.strip()
        if not line:
            continue
        m = re.match(r"^(\S+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(.+)$", line)
        if m:
            consts.append((m.group(1), m.group(2), m.group(3).strip()))
            continue
        parts = line.split(None, 2)
        fields.append((parts[0], parts[1], parts[2].strip() if len(parts) > 2 else None))
    out = [f"struct {name}", "{",
           f"  using SharedPtr = std::shared_ptr<{name}>;",
           f"  using ConstSharedPtr = std::shared_ptr<const {name}>;",
           f"  using UniquePtr = std::unique_ptr<{name}>;",
           f"  {name}() = default;",
           f"  explicit {name}(rosidl_runtime_cpp::MessageInitialization) {{}}"]
    for t, n, v in consts:
        if t == "string":
            out.append(f"  inline static const std::string {n} = {v};")
        else:
            out.append(f"  static constexpr {PRIM[t]} {n} = {v};")
    eq = []
    for t, n, d in fields:
        c, prim = ctype(pkg, t, deps)
        out.append(f"  using _{n}_type = {c};")
        out.append(f"  {c} {n}{{{d if d is not None else ''}}};")
        out.append(f"  {name} & set__{n}(const {c} & v) {{ {n} = v; return *this; }}")
        eq.append(f"{n} == o.{n}")
    out.append(f"  bool operator==(const {name} & o) const {{ (void)o; return {' and '.join(eq) or 'true'}; }}")
    out.append(f"  bool operator!=(const {name} & o) const {{ return not (*this == o); }}")
    # for the harnesses: visits all fields by name
    visit = " ".join(f'f("{n}", {n});' for _, n, _ in fields)
    out.append(f"  template <class F> void vf_fields(F && f) {{ {visit} }}")
    out.append(f"  template <class F> void vf_fields(F && f) const {{ {visit} }}")
    out.append("};")
    names = [n for _, n, _ in fields]
    types = {n: ctype(pkg, t, set())[0] for t, n, _ in fields}
    if names and build:
        b = ["namespace builder {"]
        for i in range(len(names) - 1, -1, -1):
            n = names[i]
            last = i == len(names) - 1
            ret = f"::{pkg}::msg::{name}" if last else f"Init_{name}_{names[i + 1]}"
            b.append(f"struct Init_{name}_{n} {{ ::{pkg}::msg::{name} m; {ret} {n}({types[n]} v) {{ m.{n} = std::move(v); return {'std::move(m)' if last else ret + '{std::move(m)}'}; }} }};")
        b.append("}")
        out += b
    return "\n".join(out)

def emit(outdir, pkg, kind, name, text):
    deps = set()
    if kind == "msg":
        body = struct(pkg, name, text, deps, True)
        deps.discard((pkg, name))
    else:
        a, _, b = text.partition("---")
        body = (struct(pkg, name + "_Request", a, deps) + "\n" + struct(pkg, name + "_Response", b, deps)
                + f"\nstruct {name} {{ using Request = {name}_Request; using Response = {name}_Response; }};")
    inc = "".join(f"#include <{p}/msg/{snake(n)}.hpp>\n" for p, n in sorted(deps))
    txt = ("#pragma once\n#include <array>\n#include <cstdint>\n#include <iostream>\n#include <memory>\n#include <optional>\n#include <string>\n#include <unordered_map>\n#include <vector>\n#include <rosidl_runtime_cpp/message_initialization.hpp>\n"
           + inc + f"namespace {pkg} {{ namespace {kind} {{\n{body}\n}} }}\n")
    first = re.search(r"struct (Init_%s_\w+) [^\n]*\n}" % name, body)
    if first:
        txt += (f"#ifndef SHIM_BUILD_{pkg}\n#define SHIM_BUILD_{pkg}\nnamespace {pkg} {{ template <typename T> auto build(); }}\n#endif\n"
                f"namespace {pkg} {{ template <> inline auto build<::{pkg}::msg::{name}>() {{ return msg::builder::{first.group(1)}{{}}; }} }}\n")
    path = os.path.join(outdir, pkg, kind, snake(name) + ".hpp")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != txt:
        open(path, "w").write(txt)

def main():
    outdir, repo = sys.argv[1], sys.argv[2]
    cur = None
    blocks = []
    for line in open(os.path.join(HERE, "..", "shim", "msgs.txt")):
        if line.startswith("## "):
            cur = (line[3:].strip(), [])
            blocks.append(cur)
        else:
            cur[1].append(line)
    for key, lines in blocks:
        pkg, kind, name = key.split("/")
        emit(outdir, pkg, kind, name, "".join(lines))
    for f in sorted(glob.glob(os.path.join(repo, "*/*_msgs/*/*.msg")) + glob.glob(os.path.join(repo, "*/*_msgs/*/*.srv"))):
        parts = f.split("/")
        emit(outdir, parts[-3], parts[-2], os.path.splitext(parts[-1])[0], open(f).read())

main()
