#!/usr/bin/env python3
"""Copies the working tree of hyper and the source of the h2 crate into gen/, with the paths of the synchronization
primitives they use (std::sync, tokio::sync, futures_channel, want, atomic_waker) redirected to hsync's, so that a
controlled scheduler runs them. Nothing else is changed. Files are rewritten only when their content differs."""
import os, re, sys, tomllib, tarfile, glob, json
here = os.path.dirname(os.path.abspath(__file__))
gen = os.path.join(here, "gen")
repo = os.environ.get("HYPER_REPO", "/repo")

SUBS = [
    (r'(?<![\w:])(::)?std::sync\b', 'hsync::sync'),
    (r'(?<![\w:])(::)?core::sync\b', 'hsync::sync'),
    (r'(?<![\w:])(::)?tokio::sync\b', 'hsync::tokio_sync'),
    (r'(?<![\w:.])(::)?futures_channel\b(?=::|\s*;|\s+as\b)', 'hsync::futures_channel'),
    (r'(?<![\w:.])(::)?want::(?=[A-Za-z{*])', 'hsync::want::'),
    (r'(?<![\w:.])(::)?atomic_waker\b(?=::)', 'hsync::atomic_waker'),
]

def code(src):
    # inside `use std::{..., sync::...}` the path is split: give sync its own use line
    def grp(m):
        body = m.group(3)
        parts, depth, cur = [], 0, ""
        for c in body:
            if c == "{": depth += 1
            if c == "}": depth -= 1
            if c == "," and depth == 0:
                parts.append(cur); cur = ""
            else:
                cur += c
        parts.append(cur)
        out, keep = "", []
        for p in (x.strip() for x in parts):
            if not p: continue
            if re.match(r'sync\b', p):
                out += f"{m.group(1)}use std::{p};"
            else:
                keep.append(p)
        if not out: return m.group(0)
        attrs = ""
        return (f"{m.group(1)}use std::{{{', '.join(keep)}}};" if keep else "") + out
    src = re.sub(r'()\buse (std|core)::\{((?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*)\};', grp, src)
    for a, b in SUBS:
        src = re.sub(a, b, src)
    return src

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = text.encode() if isinstance(text, str) else text
    try:
        if open(path, "rb").read() == data: return
    except FileNotFoundError: pass
    open(path, "wb").write(data)

def tval(v):
    if isinstance(v, dict): return "{ " + ", ".join(f'{json.dumps(k)} = {tval(x)}' for k, x in v.items()) + " }"
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, list): return "[" + ", ".join(tval(x) for x in v) + "]"
    return json.dumps(v)

def manifest(c, extra):
    p = c["package"]
    o = "[package]\n" + "".join(f"{k} = {tval(p[k])}\n" for k in ("name", "version", "edition") if k in p)
    o += "autobins = false\nautotests = false\nautoexamples = false\nautobenches = false\nbuild = false\n[lib]\npath = \"src/lib.rs\"\n"
    o += "[dependencies]\n" + "".join(f"{k} = {tval(v)}\n" for k, v in {**c.get("dependencies", {}), **extra}.items())
    o += "[features]\n" + "".join(f"{json.dumps(k)} = {tval(v)}\n" for k, v in c.get("features", {}).items())
    o += "[lints.rust]\nunexpected_cfgs = \"allow\"\n"
    return o

def tree(dst, files):
    want = set()
    for rel, data in files:
        path = os.path.join(dst, rel)
        want.add(path)
        put(path, code(data.decode()) if rel.endswith(".rs") else data)
    for d, _, fs in os.walk(os.path.join(dst, "src")):
        for f in fs:
            if os.path.join(d, f) not in want: os.unlink(os.path.join(d, f))

def main():
    # hyper
    files = []
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            p = os.path.join(d, f)
            files.append((os.path.relpath(p, repo), open(p, "rb").read()))
    tree(os.path.join(gen, "hyper"), files)
    c = tomllib.load(open(os.path.join(repo, "Cargo.toml"), "rb"))
    put(os.path.join(gen, "hyper", "Cargo.toml"), manifest(c, {"hsync": {"path": "../../hsync"}}))
    # h2, at the version the harness' lock file names
    lock = tomllib.load(open(os.path.join(here, "Cargo.lock"), "rb"))
    ver = [p["version"] for p in lock["package"] if p["name"] == "h2"][0]
    home = os.environ.get("CARGO_HOME", os.path.join(os.environ.get("HOME", "/root"), ".cargo"))
    crate = glob.glob(os.path.join(home, "registry/cache/*", f"h2-{ver}.crate"))[0]
    files = []
    with tarfile.open(crate) as t:
        for m in t.getmembers():
            if m.isfile():
                rel = m.name.split("/", 1)[1]
                if rel == "Cargo.toml": c = tomllib.loads(t.extractfile(m).read().decode())
                if rel.startswith("src/") or rel == "README.md": files.append((rel, t.extractfile(m).read()))
    tree(os.path.join(gen, "h2"), files)
    c.pop("dev-dependencies", None)
    put(os.path.join(gen, "h2", "Cargo.toml"), manifest(c, {"hsync": {"path": "../../hsync"}}))
main()
