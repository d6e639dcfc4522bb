"""Loaded into processes of a site: which addresses they connect to, and a firewall.

VF_NETWATCH is a directory; `allow-<site>` in it lists "host:port" or "host:*" the site's
processes may reach.  Every attempt is logged to `<site>-<pid>`; others are refused.
Works on what the process does (audit events of the interpreter), not on xoscar's code.
"""
import errno
import os
import sys
import threading

_lock = threading.Lock()


def install():
    base = os.environ.get("VF_NETWATCH")
    site = os.environ.get("VF_SITE")
    if not base or not site or getattr(sys, "_vf_netwatch", False):
        return
    sys._vf_netwatch = True
    with open(os.path.join(base, f"allow-{site}")) as f:
        allow = set(f.read().split())
    fd = os.open(os.path.join(base, f"{site}-{os.getpid()}"), os.O_CREAT | os.O_WRONLY | os.O_APPEND)

    def hook(event, args):
        if event != "socket.connect":
            return
        a = args[1]
        if not isinstance(a, tuple):
            return
        host, port = a[0], a[1]
        ok = f"{host}:{port}" in allow or f"{host}:*" in allow
        os.write(fd, f"{'ok' if ok else 'REFUSED'} {host}:{port}\n".encode())
        if not ok:
            raise ConnectionRefusedError(errno.ECONNREFUSED, f"{site} cannot reach {host}:{port}")

    sys.addaudithook(hook)


install()
