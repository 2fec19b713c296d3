#!/usr/bin/env python3
"""Makes a view of the cargo workspace /repo without the git dependency concrete-ntt
(it cannot be fetched here). usage: mirror.py DEST [REPO [SHIMS]]
With SHIMS every crate sees the controlled replacements of std, once_cell and rayon in there.
Every Cargo.toml is a copy of the one in the repository minus that dependency and the two
feature entries that name it; every other entry is a symlink, so the sources built are
the repository's working tree. Files are touched only when they have to change."""
import os, re, shutil, sys

WS = os.path.abspath(sys.argv[1])
REPO = os.path.abspath(sys.argv[2] if len(sys.argv) > 2 else "/repo")
SHIMS = os.path.abspath(sys.argv[3]) if len(sys.argv) > 3 else None
SKIP = {".git", "target", "Cargo.lock", ".cargo"}

def strip(text):
    text = re.sub(r"(?m)^concrete-ntt\s*=\s*\{[^}\n]*\bgit\s*=[^}\n]*\}[^\n]*\n", "", text)
    return re.sub(r'"(?:dep:concrete-ntt|concrete-ntt\??/[^"]*)"\s*,?\s*', "", text)

def control(text):
    for name in ("once_cell", "rayon"):
        text = re.sub(rf'(?m)^{name}\s*=\s*(?:"[^"]*"|\{{[^}}\n]*version[^}}\n]*\}})\s*$', f'{name} = {{ package = "shim_{name}", path = "{SHIMS}/{name}" }}', text)
    if not re.search(r"(?m)^proc-macro\s*=\s*true", text):
        text = re.sub(r"(?m)^\[dependencies\]\s*$", f'[dependencies]\nstd = {{ package = "shim_std", path = "{SHIMS}/std" }}', text)
    return text

def remove(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.remove(path)

def holds_manifest(path):
    for _, dirs, files in os.walk(path):
        dirs[:] = [d for d in dirs if d not in SKIP]
        if "Cargo.toml" in files:
            return True
    return False

def mirror(src, dst):
    if os.path.islink(dst) or not os.path.isdir(dst):
        remove(dst)
        os.makedirs(dst)
    names = set(os.listdir(src)) - SKIP
    for name in set(os.listdir(dst)) - names - {"Cargo.lock"}:
        remove(os.path.join(dst, name))
    for name in sorted(names):
        s, d = os.path.join(src, name), os.path.join(dst, name)
        if name == "Cargo.toml":
            new = strip(open(s, encoding="utf-8").read())
            if SHIMS:
                new = control(new)
            if os.path.islink(d) or not os.path.isfile(d) or open(d, encoding="utf-8").read() != new:
                remove(d)
                with open(d, "w", encoding="utf-8") as f:
                    f.write(new)
        elif os.path.isdir(s) and not os.path.islink(s) and holds_manifest(s):
            mirror(s, d)
        elif not os.path.islink(d) or os.readlink(d) != s:
            remove(d)
            os.symlink(s, d)

mirror(REPO, WS)
