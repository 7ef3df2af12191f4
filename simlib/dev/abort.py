"""Aborts compilations at chosen points and builds again in the same process (C01)."""

from __future__ import annotations

import ast
import contextlib
import functools
import gc
import hashlib
import importlib
import os
import shutil
import sys

import _testcapi

from . import world

TOOL = 4


@functools.cache
def cleanup_ranges(filename):
    """Line ranges of finally bodies, except handlers and __exit__ methods: nobody can survive an interrupt there."""
    out = []
    try:
        with open(filename, encoding="utf-8") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return out
    for n in ast.walk(tree):
        if isinstance(n, (ast.Try, ast.TryStar)):
            for b in n.finalbody:
                out.append((b.lineno, b.end_lineno))
            for h in n.handlers:
                out.append((h.lineno, h.end_lineno))
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__aexit__", "__del__"):
            out.append((n.lineno, n.end_lineno))
    return out


@functools.cache
def raising_lines(filename):
    """Lines that call, raise or import something.

    Elsewhere (a `try:`, a plain assignment, the line of a `with` that is reached again on the way out) only an asynchronous exception could appear, and
    no code can restore its state if one appears between taking it and entering the block that restores it.
    """
    yes, no = set(), set()
    try:
        with open(filename, encoding="utf-8") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return yes
    for n in ast.walk(tree):
        if isinstance(n, (ast.Call, ast.Raise, ast.Import, ast.ImportFrom)):
            yes.update(range(n.lineno, n.end_lineno + 1))
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            no.update(range(n.lineno, n.body[0].lineno))
    return yes - no


def in_cleanup(frame):
    while frame is not None:
        fn = frame.f_code.co_filename
        ln = frame.f_lineno
        if ln is not None and any(a <= ln <= b for a, b in cleanup_ranges(fn)):
            return True
        frame = frame.f_back
    return False


class Injector:
    """Counts line and call events in the given files and raises at the chosen one."""

    def __init__(self, prefixes, at=None, exc=None):
        self.prefixes, self.at, self.exc = tuple(prefixes), at, exc
        self.n = 0
        self.where = None

    def line(self, code, line):
        if not code.co_filename.startswith(self.prefixes) or line not in raising_lines(code.co_filename):
            return sys.monitoring.DISABLE
        return self.cb(code)

    def cb(self, code, *_):
        if not code.co_filename.startswith(self.prefixes):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.at is not None and self.n >= self.at and self.where is None:
            f = sys._getframe(1)
            if not in_cleanup(f):
                self.where = f"{code.co_filename.rsplit('/', 1)[-1]}:{f.f_lineno} {code.co_name}"
                raise self.exc
        return None

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "sim")
        ev = m.events.LINE | m.events.PY_START
        m.register_callback(TOOL, m.events.LINE, self.line)
        m.register_callback(TOOL, m.events.PY_START, self.cb)
        m.set_events(TOOL, ev)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.register_callback(TOOL, m.events.PY_START, None)
        m.free_tool_id(TOOL)
        m.restart_events()


class AllocFault:
    """Fails allocations inside the native optimizer after the n-th callback was traced.

    Only native project code runs while allocations fail: the interpreter itself (its import system, its inline caches) does not survive failing
    allocations well enough to be judged by what happens afterwards.
    """

    def __init__(self, nth, at, length):
        self.nth, self.at, self.length = nth, at, length
        self.n = 0
        self.armed = False

    def on_return(self, code, *_):
        if code.co_name != "callback_to_cfg":
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n == self.nth:
            gc.collect()
            self.armed = True
            _testcapi.set_nomemory(self.at, self.at + self.length)
        return None

    def on_start(self, *_):
        _testcapi.remove_mem_hooks()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "sim")
        m.register_callback(TOOL, m.events.PY_RETURN, self.on_return)
        m.register_callback(TOOL, m.events.PY_START, self.on_start)
        m.set_events(TOOL, m.events.PY_RETURN | m.events.PY_START)
        return self

    def __exit__(self, *a):
        _testcapi.remove_mem_hooks()
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.free_tool_id(TOOL)
        m.restart_events()


EXC = {"kbd": KeyboardInterrupt, "mem": MemoryError, "rec": RecursionError, "exit": SystemExit, "rt": RuntimeError, "os": OSError}


def mount(root, name, files):
    d = f"{root}/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    world.Editor(d).sync(files, 1_700_000_000.0)


def load(root, name, module):
    """Like a CLI process or a rebuild: import the project from its directory."""
    import sonolus.build.cli as cli

    os.chdir(f"{root}/{name}")
    importlib.invalidate_caches()
    with contextlib.redirect_stdout(None):
        project, mod, _ = cli.import_project(module)
    return project


def purge(core):
    for m in tuple(sys.modules):
        if m not in core:
            del sys.modules[m]


def clear_like_rebuild():
    from sonolus.backend.utils import get_function, get_functions, get_tree_from_file
    from sonolus.script.internal.visitor import clear_frontend_caches

    get_function.cache_clear()
    get_tree_from_file.cache_clear()
    get_functions.cache_clear()
    clear_frontend_caches()


def config(args):
    import argparse

    import sonolus.build.cli as cli

    ns = argparse.Namespace(command="dev", optimize_minimal="-O0" in args, optimize_fast="-O1" in args, optimize_standard=False, play="--play" in args,
                            watch="--watch" in args, preview=False, tutorial=False, verbose=False,
                            runtime_checks=args[args.index("--runtime-checks") + 1] if "--runtime-checks" in args else None)
    return cli.get_config(ns)


def output(project, args, kind):
    """Everything a build of this project produces, as digests."""
    from sonolus.build.engine import package_engine
    from sonolus.build.level import package_level_data
    from sonolus.build.project import build_project_to_collection, get_project_schema
    from sonolus.script.internal.context import ProjectContextState

    cfg = config(args)
    st = ProjectContextState.from_build_config(cfg)
    out = {}
    if kind == "engine":
        e = package_engine(project.engine.data, cfg, project_state=st)
        for k in ("configuration", "play_data", "watch_data", "preview_data", "tutorial_data", "rom"):
            out[k] = getattr(e, k)
        for lv in project.levels:
            out["level:" + lv.name] = package_level_data(lv.data)
    else:
        c = build_project_to_collection(project, cfg, project_state=st)
        c.link()
        out["items"] = repr(c.categories).encode()
        out["repo"] = repr(sorted(c.repository)).encode()
    out["codes"] = repr(sorted(st.debug_str_mappings.items(), key=lambda kv: kv[1])).encode()
    out["schema"] = repr(get_project_schema(project)).encode()
    return {k: hashlib.sha1(v).hexdigest() for k, v in out.items()}


def attempt(project, args, op, module_tree, proj_dir, ab):
    """One compilation that may be aborted. Returns (outcome text, events counted)."""
    import sonolus.build.cli as cli
    from sonolus.build.engine import package_engine
    from sonolus.build.project import build_project_to_collection

    cfg = config(args)
    ops = {"build": lambda: package_engine(project.engine.data, cfg), "check": lambda: cli.validate_project(project, cfg),
           "collection": lambda: build_project_to_collection(project, cfg), "schema": lambda: cli.get_project_schema(project)}
    fn = ops[op]
    what = ab["kind"]
    prefixes = (f"{module_tree}/sonolus", proj_dir)
    try:
        if what == "none":
            fn()
        elif what == "count":
            with Injector(prefixes) as i:
                with contextlib.suppress(Exception):
                    fn()
            return "counted", i.n
        elif what == "nomem":
            err = None
            with AllocFault(ab["nth"], ab["at"], ab["len"]) as af:
                try:
                    fn()
                except BaseException as e:  # noqa: BLE001
                    err = type(e)
            return (f"aborted {err.__name__}" if err else "completed"), af.n
        elif what == "deep":
            old = sys.getrecursionlimit()
            depth = 0
            f = sys._getframe()
            while f:
                depth += 1
                f = f.f_back
            sys.setrecursionlimit(depth + ab["depth"])
            try:
                fn()
            finally:
                sys.setrecursionlimit(old)
        else:
            with Injector(prefixes, ab["at"], EXC[what]("injected")) as i:
                fn()
            return "completed", i.n
    except BaseException as e:  # noqa: BLE001
        return f"aborted {type(e).__name__}", 0
    return "completed", 0


def trial(root, tree, spec):
    """In a forked child: aborted compilations, then one that must equal a fresh one. Returns (outcomes, digests | error)."""
    core = set(sys.modules)
    outcomes = []
    dn = open(os.devnull, "w")
    projects = {}

    def get(name):
        if name not in projects:
            projects.clear()  # one project directory is importable at a time
            purge(core)
            sys.path[:] = [p for p in sys.path if not str(p).startswith(root)]
            projects[name] = load(root, name, spec["modules"][name])
        return projects[name]

    with contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
        try:
            for ab in spec["aborts"]:
                pr = get(ab["project"])
                outcomes.append(attempt(pr, ab["args"], ab["op"], tree, f"{root}/{ab['project']}", ab))
                if ab.get("reload"):
                    projects.clear()
            fin = spec["final"]
            if fin["mode"] != "same":
                projects.clear()
            pr = get(fin["project"])
            if fin["mode"] == "rebuild":  # what the dev server's rebuild does
                clear_like_rebuild()
            res = output(pr, fin["args"], fin["kind"])
        except BaseException as e:  # noqa: BLE001
            import traceback

            res = {"error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}
    return outcomes, res
