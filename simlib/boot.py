"""Prepares an importable copy of /repo's current working tree.

The copy lives in a scratch directory owned by this run (never in /repo).  Extension modules are reused
only if the build stamp proves that they were built from exactly the sources now in the tree; otherwise
they are built again in the scratch directory.
"""

from __future__ import annotations

import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

REPO = Path(os.environ.get("SIM_REPO", "/repo"))
PY = "/opt/venv/bin/python"
OPT = "sonolus/backend/_opt"


def _sha(p: Path) -> str:
    return hashlib.sha256(p.read_bytes()).hexdigest()


def _stamp_lines(tree: Path) -> list[str]:
    opt = tree / OPT
    files = sorted(opt.glob("*.pyx")) + sorted(opt.glob("*.pxd")) + sorted(opt.glob("*.h"))
    files += [tree / "setup.py", tree / "pyproject.toml"]
    return [f"{_sha(f)}  {f.relative_to(tree)}" for f in files]


def _exts_usable(tree: Path) -> bool:
    stamp = tree / "build" / "vp-stamp"
    if not stamp.exists():
        return False
    have = set(stamp.read_text().splitlines())
    want = _stamp_lines(tree)
    if not all(line in have for line in want):
        return False
    have_src = {line for line in have if OPT in line}
    if len(have_src) != len([w for w in want if OPT in w]):
        return False
    return all(list((tree / OPT).glob(f"{f.stem}.cpython-312-*.so")) for f in (tree / OPT).glob("*.pyx"))


def scratch_base() -> str:
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) and os.path.isdir("/dev/shm") else "/tmp"


def prepare(log=lambda s: None) -> Path:
    """Returns the scratch root; `<root>/tree` is what to put on sys.path."""
    root = Path(tempfile.mkdtemp(prefix="sonosim-", dir=scratch_base()))
    tree = root / "tree"
    tree.mkdir()
    usable = _exts_usable(REPO)
    ignore = shutil.ignore_patterns("__pycache__", "*.cpp", *([] if usable else ["*.so"]))
    shutil.copytree(REPO / "sonolus", tree / "sonolus", ignore=ignore)
    if (REPO / "test_projects").is_dir():
        shutil.copytree(REPO / "test_projects", tree / "test_projects", ignore=ignore)
    if not usable:
        log("extensions do not match the tree: building them in scratch")
        for f in ("setup.py", "pyproject.toml", "README.md", "LICENSE", "MANIFEST.in"):
            if (REPO / f).exists():
                shutil.copy2(REPO / f, tree / f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("SONOLUS_OPT_DEBUG_BUILD", None)
        env.pop("PYTHONPATH", None)
        # Reuse the generated C++ of unchanged modules (and their objects) where the stamp vouches for it.
        r = subprocess.run(
            [PY, "setup.py", "-q", "build_ext", "--inplace", "-j", "8"],
            cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-4000:])
            shutil.rmtree(root, ignore_errors=True)
            raise SystemExit("boot: extensions do not build")
        shutil.rmtree(tree / "build", ignore_errors=True)
    return root


def install(tree: str) -> None:
    """Makes `import sonolus` use the prepared tree in this process."""
    sys.path.insert(0, tree)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(10_000)
    from . import pyshim

    pyshim.install()


def cleanup(root: Path) -> None:
    shutil.rmtree(root, ignore_errors=True)
