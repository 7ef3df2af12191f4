"""The dev world: one project directory, processes of the real CLI run in it one after another, an operator at
the keyboard, an editor, HTTP clients, faults.  `play(plan, ctx)` executes a plan and returns what was observed.
"""

from __future__ import annotations

import contextlib
import copy
import hashlib
import json
import os
import pickle
import re
import shutil
import signal
import sys
import traceback

from ..rng import stream
from . import kernel, model, seams

PORT = 8000
PROJ = "proj"


def setup(ctx):
    """Once per runner process: import everything a CLI process has imported before it imports the project."""
    import asyncio  # noqa: F401  (stdlib modules that look at socket.socket while being imported)
    import http.client  # noqa: F401
    import http.server  # noqa: F401
    import ssl  # noqa: F401
    import urllib.request  # noqa: F401

    seams.install()
    import sonolus.build.cli  # noqa: F401

    # compile what a project may import later once, in the private copy of the tree
    pid = os.fork()
    if pid == 0:
        try:
            import importlib
            import pkgutil

            import sonolus.script

            sys.dont_write_bytecode = not str(sonolus.script.__file__).startswith(ctx.get("root", "/nonexistent"))
            for m in pkgutil.walk_packages(sonolus.script.__path__, "sonolus.script."):
                importlib.import_module(m.name)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)

    import gc

    gc.collect()
    gc.freeze()  # gc.collect() in the children then looks only at what they allocated


# ---------------------------------------------------------------------- the editor
class Editor:
    """Writes project sources and resources. Uses the real file functions: it is not the system under test."""

    def __init__(self, root, files=None, clock=0.0):
        self.root = root
        self.files: dict[str, bytes] = files or {}
        self.clock = clock

    def sync(self, new: dict[str, bytes], now: float, style="inplace"):
        """Brings the directory from the previous rendering to `new`."""
        ro = seams.raw.get("open", open)
        unlink = seams.raw.get("unlink", os.unlink)
        mkdir = seams.raw.get("mkdir", os.mkdir)
        utime = seams.raw.get("utime", os.utime)
        rename = seams.raw.get("rename", os.rename)
        changed = [p for p in new if self.files.get(p) != new[p]]
        removed = [p for p in self.files if p not in new]
        self.clock = max(self.clock + 0.002, now)
        touched_dirs = set()

        def dirs_of(p):
            parts = p.split("/")[:-1]
            return ["/".join(parts[: i + 1]) for i in range(len(parts))]

        for p in removed:
            with contextlib.suppress(FileNotFoundError):
                unlink(f"{self.root}/{p}")
            touched_dirs.add(os.path.dirname(p))
        for p in removed:
            for d in reversed(dirs_of(p)):
                if not any(q.startswith(d + "/") for q in new) and os.path.isdir(f"{self.root}/{d}"):
                    shutil.rmtree(f"{self.root}/{d}", ignore_errors=True)
                    touched_dirs.add(os.path.dirname(d))
        for p in changed:
            for d in dirs_of(p):
                full = f"{self.root}/{d}" if d else self.root
                if not os.path.isdir(full):
                    mkdir(full)
                    touched_dirs.add(os.path.dirname(d))
                    touched_dirs.add(d)
            full = f"{self.root}/{p}"
            existed = p in self.files
            old = style in ("old_inplace", "old_replace") and not p.endswith(".py")
            if style.endswith("replace") and existed:
                with ro(full + ".tmp~", "wb") as f:
                    f.write(new[p])
                rename(full + ".tmp~", full)
                touched_dirs.add(os.path.dirname(p))
            else:
                with ro(full, "wb") as f:
                    f.write(new[p])
                if not existed:
                    touched_dirs.add(os.path.dirname(p))
            t = self.clock - 86_400 * 30 if old else self.clock
            utime(full, (t, t))
        # source directories always get a fresh mtime: importlib's own directory cache is not under test
        for p in [*changed, *removed]:
            if p.endswith(".py"):
                touched_dirs.update(dirs_of(p))
                touched_dirs.add("")
        for d in touched_dirs:
            full = f"{self.root}/{d}" if d else self.root
            if os.path.isdir(full):
                self.clock += 0.000013
                utime(full, (self.clock, self.clock))
        self.files = dict(new)


# ---------------------------------------------------------------------- HTTP client (harness side)
class NoAnswer(Exception):
    pass


def http_get(s, path, *, timeout=90.0, chunk=65536, pause=0.0, abort_after=None):
    """A well-behaved (or slow, or aborting) HTTP/1.0 client. Returns (status, headers, body, complete)."""
    c = seams.SimSocket()
    try:
        c.connect(("127.0.0.1", PORT))
    except ConnectionRefusedError:
        return None
    c.settimeout(timeout)
    try:
        c.sendall(f"GET {path} HTTP/1.0\r\nHost: sim\r\n\r\n".encode())
        buf = b""
        while True:
            d = c.recv(chunk)
            if not d:
                break
            buf += d
            if abort_after is not None and len(buf) >= abort_after:
                c.reset()
                return (0, {}, buf, False)
            if pause:
                s.sleep(pause)
    except TimeoutError:
        raise NoAnswer(path) from None
    except (ConnectionResetError, BrokenPipeError):
        return (0, {}, b"", False)
    finally:
        c.close()
    head, sep, body = buf.partition(b"\r\n\r\n")
    if not sep:
        return (0, {}, buf, False)
    first, *hs = head.decode("latin1").split("\r\n")
    m = re.match(r"HTTP/\d\.\d (\d+)", first)
    headers = {k.strip().lower(): v.strip() for k, _, v in (h.partition(":") for h in hs)}
    ln = headers.get("content-length")
    return (int(m.group(1)) if m else 0, headers, body, ln is None or int(ln) == len(body))


def srls(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("hash"), str) and isinstance(x.get("url"), str):
            out.append((x["hash"], x["url"]))
        for v in x.values():
            srls(v, out)
    elif isinstance(x, list):
        for v in x:
            srls(v, out)


def crawl(get):
    """Fetches everything reachable from /sonolus/info. get(path) -> (status, body, complete).
    Returns (closure {path: body}, problems [(class, text)])."""
    out, bad = {}, []

    def fetch(path, want_json=True):
        st, body, complete = get(path)
        if st != 200:
            bad.append(("missing", f"GET {path}: status {st}"))
            return None
        if not complete:
            bad.append(("torn", f"GET {path}: body shorter than announced"))
            return None
        out[path] = body
        if not want_json:
            return body
        try:
            return json.loads(body)
        except ValueError:
            bad.append(("torn", f"GET {path}: not a complete JSON document ({len(body)} bytes)"))
            return None

    refs = []
    info = fetch("/sonolus/info")
    if isinstance(info, dict):
        for b in info.get("buttons", []):
            cat = {"skin": "skins", "background": "backgrounds", "effect": "effects", "particle": "particles", "engine": "engines",
                   "level": "levels", "post": "posts", "playlist": "playlists", "replay": "replays"}[b["type"]]
            ci = fetch(f"/sonolus/{cat}/info")
            li = fetch(f"/sonolus/{cat}/list")
            srls(ci, refs)
            srls(li, refs)
            for it in (li or {}).get("items", []):
                d = fetch(f"/sonolus/{cat}/{it['name']}")
                srls(d, refs)
    for h, url in sorted(set(refs)):
        if not url.startswith("/sonolus/repository/"):
            continue
        st, body, complete = get(url)
        if st != 200:
            bad.append(("dangling", f"asset {url} is referred to but answers {st}"))
            continue
        out[url] = body
        if hashlib.sha1(body).hexdigest() != h:
            bad.append(("badhash", f"asset {url} has {len(body)} bytes that do not hash to its name"))
        elif not complete:
            bad.append(("torn", f"asset {url} cut short"))
    return out, bad


def site_closure_from_disk(site):
    ro = seams.raw.get("open", open)

    def get(path):
        try:
            with ro(site + path, "rb") as f:
                return 200, f.read(), True
        except OSError:
            return 404, b"", True

    return crawl(get)


# ---------------------------------------------------------------------- one simulated process
class Proc:
    """Runs inside a forked child: one CLI process plus the actors around it."""

    def __init__(self, plan, st, root):
        self.plan, self.st, self.root = plan, st, root
        self.proj = f"{root}/{PROJ}"
        self.obs: list[dict] = []
        self.exited = None
        self.out: list = []
        self.err: list = []
        self.stop_clients = False

    # ---- helpers for actors
    def note(self, kind, **kw):
        kw["kind"] = kind
        kw["step"] = self.s.steps
        kw["idx"] = self.st["idx"]
        self.obs.append(kw)
        self.s.event("obs", kind, kw.get("cls", ""), kw.get("digest", ""))

    def apply_edit(self, e):
        st = self.st
        new = e["model"]
        if e.get("jump"):
            self.s.now += e["jump"]
            self.s.count("fault.clock_jump")
        ed = Editor(self.proj, st["files"], st["edit_clock"])
        ed.sync(model.render(new), self.s.now, e.get("style", "inplace"))
        st["files"], st["edit_clock"], st["model"] = ed.files, ed.clock, new
        self.s.count("probe.edit_" + e.get("kind", "x"))
        if e.get("style", "inplace").startswith("old"):
            self.s.count("fault.old_mtime_edit")
        self.s.event("edit", e.get("kind"))

    def prompt_idle(self):
        return self.exited is not None or (seams.STDIN.waiting > 0 and not seams.STDIN.lines)

    def wait_prompt(self, what):
        s = self.s
        ok = s.block(self.prompt_idle, 600.0, "wait-prompt")
        if not ok:
            self.note("liveness", cls="no-prompt", text=f"no new prompt within 600 simulated seconds after {what!r}")
            self.end({"end": "hung"})
        return self.exited is None

    def judge_get(self, path):
        r = http_get(self.s, path)
        if r is None:
            return 0, b"", True
        st, _, body, complete = r
        return st, body, complete

    def judge(self, label, **kw):
        """Fetches the whole served site and records it."""
        try:
            clo, bad = crawl(self.judge_get)
        except NoAnswer as e:
            self.note("liveness", cls="http-no-answer", text=f"GET {e} got no answer within 90 simulated seconds")
            return
        self.note("served", label=label, snap=self.st["snap"], closure={p: hashlib.sha1(b).hexdigest() for p, b in clo.items()}, bad=bad,
                  digest=hashlib.sha1(repr(sorted((p, hashlib.sha1(b).digest()) for p, b in clo.items())).encode()).hexdigest()[:12], **kw)
        self.bodies.update({hashlib.sha1(b).hexdigest(): b for p, b in clo.items() if self.plan.get("keep_assets") or "/repository/" not in p})
        pd = [b for p, b in clo.items() if p == "/sonolus/engines/list"]
        if pd and self.plan.get("keep_engine"):
            self.engine_data = {}
            name = (self.st.get("built") or self.st["model"])["name"]
            try:
                for it in json.loads(pd[0])["items"]:
                    for k in ("playData", "watchData", "previewData", "tutorialData", "rom"):
                        b = clo.get(it.get(k, {}).get("url"))
                        if b and it["name"] == name:
                            self.engine_data[k] = b
            except (ValueError, KeyError):
                pass

    def text_since(self, mark):
        return "".join(t for _, _, t in self.out[mark:])

    # ---- the operator
    def operator(self):
        s, st = self.s, self.st
        steps = self.plan["steps"]
        if self.cmd != "dev":
            return  # other commands run to their end by themselves
        if self.cmd == "dev":
            if not s.block(lambda: self.exited is not None or seams.STDIN.waiting > 0, 600.0, "wait-first-prompt"):
                self.note("liveness", cls="no-prompt", text="no first prompt within 600 simulated seconds")
                self.end({"end": "hung"})
            if self.exited is None:
                self.w.disarm()
                self.note("started", snap=st["snap"], out=self.text_since(0))
                self.judge("start", faulted=bool(self.w.fault_hits))
        while self.exited is None and st["idx"] < len(steps):
            step = steps[st["idx"]]
            op = step["op"]
            if op == "start":
                break
            st["idx"] += 1
            if op == "edit":
                self.apply_edit(step)
            elif op == "sleep":
                s.sleep(step["dt"])
            elif op == "jump":
                s.now += step["dt"]
                s.count("fault.clock_jump")
            elif op == "judge":
                self.judge("extra")
            elif op == "line":
                self.do_line(step)
            elif op == "lines":  # type-ahead: several lines without waiting for the prompt
                self.do_lines(step)
            elif op == "decode":
                self.do_decode(step)
            elif op == "eof":
                seams.STDIN.eof = True
                s.point("eof")
            elif op == "ctrlc":
                s.count("fault.ctrl_c")
                self.note("ctrlc")
                self.main_task.inject = KeyboardInterrupt()
                self.expect_exit("Ctrl-C")
            elif op == "kill":
                s.count("fault.process_death")
                self.end({"end": "killed"})
            elif op == "clients_off":
                self.stop_clients = True
        self.stop_clients = True
        if self.exited is None and self.cmd == "dev":
            if self.plan.get("final_judge"):
                self.wait_prompt("final")
                self.judge("final")
            if self.plan.get("final_quit", True):
                mark = len(self.out)
                seams.STDIN.lines.append("q")
                self.note("quit")
                self.expect_exit("quit")
        # the process's main task ends the run

    def expect_exit(self, why):
        ok = self.s.block(lambda: self.exited is not None, 300.0, "wait-exit")
        if not ok:
            self.note("liveness", cls="no-exit", text=f"process did not end within 300 simulated seconds after {why}")
            self.end({"end": "hung"})

    def do_line(self, step):
        s, st = self.s, self.st
        text = step["text"]
        is_rebuild = text.strip() in ("r", "rebuild")
        if not self.wait_prompt("earlier commands"):
            return
        w = self.w
        w.fault_hits = []
        if step.get("faults"):
            w.arm(step["faults"])
        snap0 = self.take_snap()
        model0 = st["model"]
        raced = []
        for e in step.get("during") or ():
            def go(e=e):
                self.apply_edit(e)
                raced.append(self.take_snap())
            (w.on_read_op if e.get("side") == "r" else w.on_write_op).append((e["nth"], go))
            w.nw = w.nr = 0
        mark, emark = len(self.out), len(self.err)
        if step.get("ctrlc_after") is not None:
            pass
        prompts = seams.STDIN.prompts
        seams.STDIN.lines.append(text)
        alive = self.wait_prompt(text)
        w.disarm()
        outtext = self.text_since(mark)
        self.note("line", text=text, alive=alive, out=outtext, prompts=seams.STDIN.prompts - prompts, faulted=list(w.fault_hits))
        if not alive:
            return
        if is_rebuild:
            ok = "rebuild completed" in outtext.lower()
            self.note("rebuild", ok=ok, snap=snap0, raced=raced, faulted=list(w.fault_hits), out=outtext)
            if ok:
                st["snap"] = snap0
                st["raced"] = raced
                st["built"], st["built_snap"] = (None, None) if raced else (model0, snap0)
            elif w.fault_hits:
                st["built"] = None  # cut off by a write error: old and new documents may be mixed
            self.judge("rebuild", ok=ok, raced=raced, faulted=list(w.fault_hits), want=snap0)

    def do_lines(self, step):
        if not self.wait_prompt("earlier commands"):
            return
        mark = len(self.out)
        seams.STDIN.lines.extend(step["texts"])
        snap0 = self.take_snap()
        model0 = self.st["model"]
        alive = self.wait_prompt("lines")
        outtext = self.text_since(mark)
        self.note("lines", texts=step["texts"], out=outtext, alive=alive)
        if alive and any(t.strip() in ("r", "rebuild") for t in step["texts"]):
            ok = "rebuild completed" in outtext.lower()
            if ok:
                self.st["snap"] = snap0
                self.st["built"], self.st["built_snap"] = model0, snap0
            self.judge("rebuild", ok=ok, raced=[], faulted=[], want=snap0)

    def do_decode(self, step):
        """Execute the served engine until it logs a code, decode it."""
        from . import dbg

        if not self.wait_prompt("earlier commands"):
            return
        dbg.sweep(self, step)

    def take_snap(self):
        """Remembers the sources as they are now; returns an id."""
        h = hashlib.sha1()
        for p, b in sorted(self.st["files"].items()):
            h.update(p.encode() + b"\0" + hashlib.sha1(b).digest())
        k = h.hexdigest()[:16]
        self.snaps[k] = self.st["files"]
        return k

    # ---- HTTP clients
    def client(self, spec, n):
        s = self.s
        rng = stream(self.plan["seed"], "client", n, self.st["idx"])
        kind = spec["kind"]
        # wait for the server
        s.block(lambda: PORT in seams.NET.listeners or self.stop_clients, 900, "client-start")
        s.sleep(rng.random() * spec.get("delay", 1.0))
        rounds = 0
        while not self.stop_clients and rounds < spec.get("rounds", 4):
            rounds += 1
            try:
                if kind == "crawl":
                    seen = {}

                    def get(path):
                        r = http_get(s, path, chunk=spec.get("chunk", 65536), pause=spec.get("pause", 0))
                        if r is None:
                            raise ConnectionRefusedError
                        st, _, body, complete = r
                        seen[path] = (st, hashlib.sha1(body).hexdigest())
                        return st, body, complete

                    clo, bad = crawl(get)
                    self.note("client", client=n, seen=seen, bad=bad)
                    self.bodies.update({hashlib.sha1(b).hexdigest(): b for p, b in clo.items() if "/repository/" not in p})
                elif kind == "poll":
                    for path in spec["paths"]:
                        r = http_get(s, path)
                        if r is None:
                            raise ConnectionRefusedError
                        st, _, body, complete = r
                        bad = []
                        refs = []
                        if st == 200:
                            if not complete:
                                bad.append(("torn", f"GET {path}: body shorter than announced"))
                            else:
                                try:
                                    srls(json.loads(body), refs)
                                except ValueError:
                                    bad.append(("torn", f"GET {path}: not a complete JSON document ({len(body)} bytes)"))
                        elif not path.rsplit("/", 1)[1].startswith(("ext", "lv")):
                            bad.append(("missing", f"GET {path}: status {st}"))
                        rng.shuffle(refs)
                        for h, url in refs[:3]:
                            r2 = http_get(s, url)
                            if r2 is None:
                                raise ConnectionRefusedError
                            if r2[0] != 200:
                                bad.append(("dangling", f"asset {url} in {path} answers {r2[0]}"))
                            elif hashlib.sha1(r2[2]).hexdigest() != h:
                                bad.append(("badhash", f"asset {url} ({len(r2[2])} bytes) does not hash to its name"))
                        self.note("client", client=n, seen={path: (st, hashlib.sha1(body).hexdigest())}, bad=bad)
                        self.bodies[hashlib.sha1(body).hexdigest()] = body
                        s.sleep(rng.random() * 0.05)
                elif kind == "stall":  # connects and sends nothing (or half a request)
                    c = seams.SimSocket()
                    c.connect(("127.0.0.1", PORT))
                    s.count("fault.stalled_client")
                    if spec.get("half"):
                        c.sendall(b"GET /sonolus/in")
                    s.block(lambda: self.stop_clients and self.exited is not None, spec.get("hold", 1e6), "stall")
                    c.close()
                elif kind == "noread":  # asks for much and never reads
                    c = seams.SimSocket()
                    c.connect(("127.0.0.1", PORT))
                    s.count("fault.client_never_reads")
                    c.sendall(b"GET /sonolus/skins/list HTTP/1.0\r\n\r\n")
                    s.block(lambda: self.stop_clients and self.exited is not None, spec.get("hold", 1e6), "noread")
                    c.close()
                elif kind == "reset":
                    s.count("fault.client_reset")
                    http_get(s, "/sonolus/skins/list", abort_after=rng.randrange(1, 300), chunk=50)
                elif kind == "garbage":
                    c = seams.SimSocket()
                    c.connect(("127.0.0.1", PORT))
                    s.count("fault.client_garbage")
                    c.sendall(rng.choice([b"\x00\xff\xfe\r\n\r\n", b"GET\r\n\r\n", b"POST /x HTTP/1.0\r\n\r\n", b"GET /../../etc/passwd HTTP/1.0\r\n\r\n",
                                          b"A" * 70000 + b"\r\n\r\n", b"GET /%00 HTTP/1.1\r\nHost: x\r\n\r\n", b"GET / HTTP/9.9\r\n\r\n", b"\r\n"]))
                    c.shutdown(1)
                    c.settimeout(30)
                    while c.recv(4096):
                        pass
                    c.close()
            except NoAnswer as e:
                if kind in ("crawl", "poll"):
                    self.note("liveness", cls="http-no-answer", text=f"GET {e} got no answer within 90 simulated seconds")
                return
            except (ConnectionError, TimeoutError, OSError):
                pass
            s.sleep(rng.random() * spec.get("every", 0.5))

    # ---- process
    def main_body(self):
        import sonolus.build.cli as cli

        code = 0
        if self.plan.get("prior"):
            from . import repro

            repro.run_prior(self, self.plan["prior"])
        if self.plan.get("gc_every"):
            import gc

            gc.set_threshold(*self.plan["gc_every"])
        try:
            cli.main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except KeyboardInterrupt:
            code = 130
        except BaseException:  # noqa: BLE001
            self.err.append((self.s.steps, "main", traceback.format_exc()))
            code = 1
        s = self.s
        self.exit_begin = s.mono
        others = [t for t in s.tasks if t.system and not t.daemon and t is not s.cur]
        if not s.block(lambda: all(t.done for t in others), 300.0, "shutdown"):
            self.note("liveness", cls="no-exit", text="non-daemon threads keep the process alive 300 simulated seconds after main ended")
        self.exited = code
        self.note("exit", code=code)
        self.end({"end": "exit", "code": code})

    def end(self, result):
        self.s.finish(result)

    def run(self, start_step):
        s = self.s = kernel.Sched(dict(self.plan["sched"], t0=self.st["now"], seed=kernel_seed(self.plan, self.st["idx"])))
        kernel.activate(s)
        s.mono = self.st["mono"]
        self.w = seams.FileWorld(self.root)
        self.w.scan_seed = self.plan.get("scan_seed")
        seams.set_world(self.w)
        seams.set_net(seams.Net(self.plan.get("net_cap", 4096)))
        seams.set_stdin(seams.Stdin())
        self.snaps = {}
        self.bodies = {}
        self.engine_data = {}
        os.chdir(self.proj)
        sys.path[:] = [p for p in sys.path if p]
        self.cmd = start_step["cmd"]
        argv = ["sonolus-py", self.cmd, self.plan.get("module", "game"), *start_step.get("args", [])]
        if self.cmd in ("dev", "build"):
            argv += ["--build-dir", "build"]
        if self.cmd == "dev":
            argv += ["--port", str(PORT)]
        if start_step.get("auto"):
            argv.remove(self.plan.get("module", "game"))
        sys.argv = argv
        sys.stdout = seams.SimOut(self.out, "out")
        sys.stderr = seams.SimOut(self.err, "err")
        import warnings

        warnings.resetwarnings()
        warnings.simplefilter("default")
        self.st["snap"] = self.st["built_snap"] = self.take_snap()
        self.st["built"] = self.st["model"]
        self.start_args = start_step.get("args", [])
        if self.plan.get("on_proc"):
            hook = self.plan["on_proc"]
            import importlib

            importlib.import_module(hook).on_proc(self)
        self.w.arm(start_step.get("faults") or [])
        s.event("start", self.cmd)
        self.main_task = s.spawn(self.main_body, "main", system=True, daemon=False)
        s.spawn(self.operator, "operator")
        if self.cmd == "dev":
            for n, spec in enumerate(self.plan.get("clients", ())):
                s.spawn(lambda spec=spec, n=n: self.client(spec, n), f"client{n}")
        return s.run()


def kernel_seed(plan, idx):
    return (plan["sched"].get("seed", 0) * 1_000_003 + idx) & 0x7FFFFFFF


# ---------------------------------------------------------------------- forked children
def _child(fn, timeout):
    """fn() in a forked child; returns (pickled result | None, reason)."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, timeout)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            res = fn()
            data = pickle.dumps(res)
        except BaseException:  # noqa: BLE001
            data = pickle.dumps({"harness_error": traceback.format_exc()})
        try:
            wr = seams.raw.get("open", open)
            with wr(wfd, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b""
    ro = seams.raw.get("open", open)
    with ro(r, "rb", 0) as f:
        while True:
            b = f.read(1 << 20)
            if not b:
                break
            buf += b
    _, status = os.waitpid(pid, 0)
    if not buf:
        return None, f"child ended with status {status}"
    return pickle.loads(buf), "ok"


def play(plan, ctx):
    """Executes a plan. Returns {"obs", "snaps", "ends", "stats", "digest", "states", "sim_time", ...}."""
    root = f"{ctx['scratch']}/world"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(f"{root}/{PROJ}")
    t0 = 1_700_000_000.0
    ed = Editor(f"{root}/{PROJ}")
    ed.sync(model.render(plan["model"]), t0 - 5000)
    st = {"idx": 0, "model": plan["model"], "files": ed.files, "edit_clock": ed.clock, "now": t0, "mono": 1000.0, "snap": None}
    res = {"obs": [], "snaps": {}, "ends": [], "stats": {}, "bodies": {}, "states": set(), "steps": 0, "recorded": {}, "engine_data": {}}
    h = hashlib.sha256()
    procs = 0
    while st["idx"] < len(plan["steps"]):
        step = plan["steps"][st["idx"]]
        if step["op"] == "start":
            st["idx"] += 1
            procs += 1

            def go(step=step):
                p = Proc(plan, st, root)
                end = p.run(step)
                s = p.s
                return {"end": end, "obs": p.obs, "snaps": p.snaps, "st": st, "now": s.now, "mono": s.mono, "stats": s.stats, "h": s.h.hexdigest(),
                        "steps": s.steps, "edges": s.edges, "bodies": p.bodies, "recorded": s.recorded, "escapes": p.w.escapes, "out": "".join(t for *_, t in p.out)[-6000:],
                        "err": "".join(t if isinstance(t, str) else t[2] for t in p.err)[-6000:], "engine_data": p.engine_data,
                        "log": s.log if plan.get("keep_log") else None}

            r, why = _child(go, plan.get("cpu_limit", 60))
            if r is None:
                res["ends"].append({"end": "stuck", "why": why})
                res["obs"].append({"kind": "liveness", "cls": "cpu-hang", "text": f"simulated process made no progress: {why}", "idx": st["idx"]})
                break
            if "harness_error" in r:
                raise RuntimeError(r["harness_error"])
            if "harness_error" in (r["end"] or {}):
                raise RuntimeError(r["end"]["harness_error"])
            st = r["st"]
            st["now"], st["mono"] = r["now"] + 1.0, r["mono"] + 1.0
            for o in r["obs"]:
                o["proc"] = procs
            res["obs"] += r["obs"]
            end = r["end"]
            if end.get("deadlock") or end.get("stuck"):
                res["obs"].append({"kind": "liveness", "cls": "deadlock" if end.get("deadlock") else "no-progress",
                                   "text": f"{end}", "idx": st["idx"], "proc": procs})
            res["ends"].append({**end, "cmd": step["cmd"], "proc": procs, "out": r["out"], "err": r["err"], "snap": st["snap"], "idx": st["idx"]})
            res["snaps"].update(r["snaps"])
            res["bodies"].update(r["bodies"])
            res["engine_data"].update(r["engine_data"])
            for k, v in r["stats"].items():
                res["stats"][k] = res["stats"].get(k, 0) + v
            res["states"] |= r["edges"]
            res["steps"] += r["steps"]
            res["recorded"][procs] = r["recorded"]
            if r["log"]:
                res.setdefault("log", []).extend(r["log"])
            if r["escapes"]:
                res["obs"].append({"kind": "escape", "cls": "escape", "text": f"file operation outside the project: {r['escapes'][:3]}", "proc": procs})
            h.update(r["h"].encode())
            if step["cmd"] in ("build", "dev"):
                res["obs"].append({"kind": "disk", "proc": procs, "cmd": step["cmd"], **disk_state(f"{root}/{PROJ}/build", step["cmd"])})
        else:
            # between processes: only edits and clock moves make sense
            st["idx"] += 1
            if step["op"] == "edit":
                ed = Editor(f"{root}/{PROJ}", st["files"], st["edit_clock"])
                ed.sync(model.render(step["model"]), st["now"], step.get("style", "inplace"))
                st["files"], st["edit_clock"], st["model"] = ed.files, ed.clock, step["model"]
            elif step["op"] in ("sleep", "jump"):
                st["now"] += step["dt"]
    res["digest"] = h.hexdigest()[:24]
    res["sim_time"] = st["mono"] - 1000.0
    res["final"] = st
    res["root"] = root
    return res


def disk_state(build, cmd):
    """Complete documents on disk after a process ended (even killed)."""
    ro = seams.raw.get("open", open)
    docs = {}
    if cmd == "dev":
        site = f"{build}/site/sonolus"
        for d, _, fs in os.walk(site):
            for f in fs:
                p = f"{d}/{f}"
                with ro(p, "rb") as fh:
                    docs[p[len(build) + 1:]] = hashlib.sha1(fh.read()).hexdigest()
    else:
        for d, _, fs in os.walk(f"{build}/dist"):
            for f in fs:
                p = f"{d}/{f}"
                with ro(p, "rb") as fh:
                    docs[p[len(build) + 1:]] = hashlib.sha1(fh.read()).hexdigest()
    return {"files": docs}


_fresh_cache: dict = {}


def fresh(files: dict[str, bytes], args, ctx, plan, cmd="dev"):
    """What a newly started process produces for these sources: the oracle for D03 and others.
    Runs the real build once, fault-free and single-threaded, in a forked child and an empty directory."""
    key = hashlib.sha1(repr((sorted((p, hashlib.sha1(b).hexdigest()) for p, b in files.items()), args, plan.get("scan_seed"), cmd)).encode()).hexdigest()
    hit = _fresh_cache.get(key)
    if hit is not None:
        return hit
    root = f"{ctx['scratch']}/fresh"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(f"{root}/{PROJ}")
    ed = Editor(f"{root}/{PROJ}")
    ed.sync(files, 1_700_000_000.0 - 5000)

    def go():
        st = {"idx": 0, "model": {"name": "?"}, "files": files, "edit_clock": 0, "now": 1_700_000_000.0, "mono": 1000.0, "snap": None}
        p = Proc({"steps": [], "sched": {"mode": "rand", "p": 0.0, "seed": 1}, "seed": 1, "scan_seed": plan.get("scan_seed"), "final_quit": True,
                  "oracle": True, "on_proc": plan.get("on_proc")}, st, root)
        end = p.run({"cmd": cmd, "args": args})
        return {"end": end, "obs": p.obs, "bodies": p.bodies, "out": "".join(t for *_, t in p.out)[-3000:], "err": "".join(t if isinstance(t, str) else t[2] for t in p.err)[-3000:]}

    r, why = _child(go, 60)
    if r is None or "harness_error" in r or "harness_error" in (r["end"] or {}):
        raise RuntimeError(f"fresh build oracle failed: {why} {r}")
    served = [o for o in r["obs"] if o["kind"] == "served"]
    out = {"ok": bool(served) if cmd == "dev" else r["end"].get("code") == 0, "closure": served[0]["closure"] if served else None, "bad": served[0]["bad"] if served else [],
           "bodies": r["bodies"], "out": r["out"], "err": r["err"], "end": r["end"]}
    out["disk"] = disk_state(f"{root}/{PROJ}/build", cmd)["files"]
    if len(_fresh_cache) > 200:
        _fresh_cache.clear()
    _fresh_cache[key] = out
    return out


def diff_closure(got: dict, want: dict, limit=4):
    out = []
    for p in sorted(set(got) | set(want)):
        if got.get(p) != want.get(p):
            out.append(f"{p}: {'absent' if p not in got else 'extra' if p not in want else 'differs'}")
    return out[:limit], len(out)
