"""An HTTP origin that serves project assets and misbehaves on request."""

from . import seams
from .model import blob

HOST = ("cdn.test", 9000)
GOOD = ["ok", "chunked", "redirect", "slow", "nolength"]
BAD = ["s404", "s500", "s503", "s403", "truncated", "reset", "reset_head", "garbage", "chunked_trunc", "cl_more", "closed"]


def url(spec):
    return f"http://{HOST[0]}:{HOST[1]}/a{spec['u']}n{spec['n']}"


def on_proc(p):
    todo = {k: list(v) for k, v in (p.plan.get("http") or {}).items()} if not p.plan.get("oracle") else {}

    def serve(c):
        s = p.s
        try:
            c.settimeout(60)
            buf = b""
            while b"\r\n\r\n" not in buf:
                d = c.recv(4096)
                if not d:
                    return
                buf += d
            path = buf.split(b" ", 2)[1].decode()
            name, _, q = path.partition("?")
            u, n = name[2:].split("n")
            data = blob({"u": int(u), "n": int(n)})
            ks = todo.get(name)
            k = ks.pop(0) if ks and not q else "ok"
            s.event("origin", name, k)
            if k in BAD:
                s.count("fault.http_" + k)
                p.w.fault_hits.append("http_" + k)
            elif k != "ok":
                s.count("probe.http_" + k)

            def head(extra, status="200 OK"):
                c.sendall(f"HTTP/1.1 {status}\r\n{extra}Connection: close\r\n\r\n".encode())

            if k.startswith("s") and k[1:].isdigit():
                body = b"<html>error page</html>"
                head(f"Content-Length: {len(body)}\r\n", f"{k[1:]} Bad")
                c.sendall(body)
            elif k == "truncated":
                head(f"Content-Length: {len(data)}\r\n")
                c.sendall(data[: len(data) // 2])
            elif k == "cl_more":
                head(f"Content-Length: {len(data) + 7}\r\n")
                c.sendall(data)
            elif k == "reset":
                head(f"Content-Length: {len(data)}\r\n")
                c.sendall(data[: len(data) // 2])
                c.reset()
                return
            elif k == "reset_head":
                c.sendall(b"HTTP/1.1 200 O")
                c.reset()
                return
            elif k == "garbage":
                c.sendall(b"\x00\x01 nonsense\r\n\r\n")
            elif k == "closed":
                pass
            elif k in ("chunked", "chunked_trunc"):
                head("Transfer-Encoding: chunked\r\n")
                h = max(1, len(data) // 3)
                for i in range(0, len(data), h):
                    if k == "chunked_trunc" and i:
                        break
                    part = data[i:i + h]
                    c.sendall(f"{len(part):x}\r\n".encode() + part + b"\r\n")
                if k == "chunked":
                    c.sendall(b"0\r\n\r\n")
            elif k == "redirect":
                head(f"Location: {name}?r=1\r\nContent-Length: 0\r\n", "302 Found")
            elif k == "nolength":
                c.sendall(b"HTTP/1.0 200 OK\r\n\r\n" + data)
            elif k == "slow":
                head(f"Content-Length: {len(data)}\r\n")
                for i in range(0, len(data), 37):
                    c.sendall(data[i:i + 37])
                    s.sleep(0.01)
            else:
                head(f"Content-Length: {len(data)}\r\n")
                c.sendall(data)
        except (OSError, ValueError):
            pass
        finally:
            c.close()

    seams.NET.origins[HOST] = serve
