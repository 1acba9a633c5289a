#!/usr/bin/env python3
"""Copies the programs' sources from /repo's working tree into /verif/sim/gen, so that they compile against the
simulator's shims instead of std/tokio/clap/env_logger. The only textual changes: the crate roots get
`#![no_std]` + `extern crate sim_std as std`, every module gets std's prelude back, and main.rs becomes a library with
an entry function. Nothing of the programs' own logic is touched."""
import os, re, sys, shutil, tomllib, filecmp

REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim")
GEN = os.path.join(SIM, "gen")

SHIMS = {
    "tokio": '{ package = "shim-tokio", path = "../../shim-tokio" }',
    "clap": '{ package = "shim-clap", path = "../../shim-clap" }',
    "env_logger": '{ package = "shim-env-logger", path = "../../shim-env-logger" }',
}

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)

def split_head(lines):
    i = 0
    depth = 0
    while i < len(lines):
        s = lines[i].strip()
        if depth > 0:
            depth += s.count("[") - s.count("]")
            i += 1
            continue
        if s.startswith("/*!") or (s.startswith("/*") and not s.startswith("/**")):
            while i < len(lines) and "*/" not in lines[i]:
                i += 1
            i += 1
            continue
        if s == "" or s.startswith("//!") or (s.startswith("//") and not s.startswith("///")):
            i += 1
            continue
        if s.startswith("#!["):
            depth = s.count("[") - s.count("]")
            i += 1
            continue
        break
    return i

def prelude(edition):
    return "#[allow(unused_imports)] use ::std::__sim::prelude::*;"

MODRE = re.compile(r"^(\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+\w+\s*\{)", re.M)

def transform(text, root, entry, edition):
    lines = text.split("\n")
    h = split_head(lines)
    ins = []
    if root:
        # inner attributes must come first
        lines.insert(0, "#![no_std] #![allow(unused_imports, dead_code, unused_macros)]")
        h += 1
        ins.append("#[macro_use] extern crate sim_std as std;")
    ins.append(prelude(edition))
    body = "\n".join(lines[h:])
    body = MODRE.sub(lambda m: m.group(1) + " " + prelude(edition) + " ", body)
    out = "\n".join(lines[:h] + [" ".join(ins)]) + "\n" + body
    if entry:
        out += "\npub fn __sim_entry() -> i32 { ::std::__sim::SimTermination::sim_report(main()) }\n"
    return out

def toml_val(v):
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, list):
        return "[" + ", ".join(toml_val(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {toml_val(x)}" for k, x in v.items()) + " }"
    return str(v)

def gen_crate(src, out, name, kind, lib_dep):
    """kind: lib | main"""
    man = tomllib.load(open(os.path.join(REPO, src, "Cargo.toml"), "rb"))
    ws = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb")).get("workspace", {}).get("package", {})
    pk = man["package"]
    def field(k, d):
        v = pk.get(k, d)
        if isinstance(v, dict):
            v = ws.get(k, d)
        return v
    edition = field("edition", "2021")
    lines = ["[package]", f'name = "{name}"', f'version = {toml_val(field("version", "0.0.0"))}',
             f'edition = "{edition}"', f'authors = {toml_val(field("authors", []))}',
             f'description = {toml_val(field("description", ""))}', "publish = false", "autobins = false", "", "[lib]"]
    if kind == "lib":
        lines.append(f'name = "{pk["name"].replace("-", "_")}"')
        lines.append('path = "src/lib.rs"')
    else:
        lines.append(f'name = "{name.replace("-", "_")}"')
        lines.append('path = "src/main.rs"')
    lines += ["doctest = false", "test = false", "", "[dependencies]", 'sim-std = { path = "../../shim-std" }']
    deps = man.get("dependencies", {})
    for d, v in deps.items():
        if d in SHIMS:
            lines.append(f"{d} = {SHIMS[d]}")
            continue
        if isinstance(v, dict) and "path" in v:
            p = os.path.normpath(os.path.join(REPO, src, v["path"]))
            if os.path.basename(p) == "lsp-proxy":
                lines.append('whippyunits-lsp-proxy = { package = "gen-lsp-lib", path = "../lsp-lib" }')
                continue
            vv = dict(v)
            vv["path"] = p
            vv.pop("version", None)
            lines.append(f"{d} = {toml_val(vv)}")
            continue
        lines.append(f"{d} = {toml_val(v)}")
    if kind == "main":
        own = pk["name"]
        if os.path.exists(os.path.join(REPO, src, "src", "lib.rs")):
            lines.append(f'{own} = {{ package = "{lib_dep}", path = "../{lib_dep[4:]}" }}')
    write(os.path.join(out, "Cargo.toml"), "\n".join(lines) + "\n")
    seen = set()
    for dp, dn, fn in os.walk(os.path.join(REPO, src, "src")):
        for f in fn:
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, os.path.join(REPO, src))
            seen.add(rel)
            dst = os.path.join(out, rel)
            if not f.endswith(".rs"):
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(p, dst)
                continue
            text = open(p).read()
            root = rel == "src/lib.rs" if kind == "lib" else rel == "src/main.rs"
            write(dst, transform(text, root, root and kind == "main", edition))
    for dp, dn, fn in os.walk(os.path.join(out, "src")):
        for f in fn:
            p = os.path.join(dp, f)
            if os.path.relpath(p, out) not in seen:
                os.remove(p)

PM_ATTR = re.compile(r"^([ \t]*)#\[\s*proc_macro(?:_attribute|_derive\s*\([^\]]*\))?\s*\]", re.M)

def gen_macros(src, out, name):
    """The macro crate as an ordinary library: only its #[proc_macro] attributes are dropped, and proc_macro/syn are
    the shims over proc_macro2, so that an expansion can be called like any function."""
    man = tomllib.load(open(os.path.join(REPO, src, "Cargo.toml"), "rb"))
    edition = man["package"].get("edition", "2021")
    lib = man.get("lib", {}).get("path", "src/lib.rs")
    lines = ["[package]", f'name = "{name}"', 'version = "0.0.0"', f'edition = {toml_val(edition)}', "publish = false",
             "autobins = false", "", "[lib]", f'path = "{lib}"', "doctest = false", "test = false", "", "[dependencies]",
             'proc_macro = { package = "shim-proc-macro", path = "../../shim-proc-macro" }']
    for d, v in man.get("dependencies", {}).items():
        if d == "syn":
            lines.append('syn = { package = "shim-syn", path = "../../shim-syn" }')
            continue
        if isinstance(v, dict) and "path" in v:
            v = dict(v)
            v["path"] = os.path.normpath(os.path.join(REPO, src, v["path"]))
            v.pop("version", None)
        lines.append(f"{d} = {toml_val(v)}")
    write(os.path.join(out, "Cargo.toml"), "\n".join(lines) + "\n")
    seen = set()
    entries = []
    for dp, dn, fn in os.walk(os.path.join(REPO, src, "src")):
        for f in fn:
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, os.path.join(REPO, src))
            seen.add(rel)
            dst = os.path.join(out, rel)
            if not f.endswith(".rs"):
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(p, dst)
                continue
            text = open(p).read()
            if rel == lib:
                text = "#![allow(dead_code, unused)]\n" + PM_ATTR.sub(r"\1", text)
            write(dst, text)
    for dp, dn, fn in os.walk(os.path.join(out, "src")):
        for f in fn:
            p = os.path.join(dp, f)
            if os.path.relpath(p, out) not in seen:
                os.remove(p)

def main():
    gen_macros("proc-macros", f"{GEN}/proc-macros", "gen-proc-macros")
    gen_crate("lsp-proxy", f"{GEN}/lsp-lib", "gen-lsp-lib", "lib", None)
    gen_crate("lsp-proxy", f"{GEN}/lsp-main", "gen-lsp-main", "main", "gen-lsp-lib")
    gen_crate("whippyunits-pretty", f"{GEN}/pretty-lib", "gen-pretty-lib", "lib", None)
    gen_crate("whippyunits-pretty", f"{GEN}/pretty-main", "gen-pretty-main", "main", "gen-pretty-lib")

main()
