"""names served on loopback for the functions that use DNS: a UDP server per address, and the resolver library told to use its port"""
import socket
import threading

import dns.exception
import dns.flags
import dns.message
import dns.name
import dns.rcode
import dns.rdatatype
import dns.resolver
import dns.rrset

HOSTS = ["127.0.0.1", "127.0.0.2", "127.0.0.3"]
_state = {}


class Zones:
    def __init__(self):
        self.data = {h: {} for h in HOSTS}  # address -> {(name, type): [text] | "SERVFAIL" | "DROP"}
        self.asked = []

    def clear(self):
        for h in HOSTS:
            self.data[h] = {}
        self.asked = []


def _answer(zones, host, wire):
    q = dns.message.from_wire(wire)
    question = q.question[0]
    name, kind = question.name.to_text().rstrip(".").lower(), dns.rdatatype.to_text(question.rdtype)
    zones.asked.append((host, name, kind))
    z = zones.data[host]
    r = dns.message.make_response(q)
    r.flags |= dns.flags.RA
    found = z.get((name, kind))
    if found == "DROP":
        return None
    if found == "SERVFAIL":
        r.set_rcode(dns.rcode.SERVFAIL)
    elif found:
        r.answer.append(dns.rrset.from_text(question.name, 60, "IN", kind, *found))
    elif not any(n == name for n, _ in z):
        r.set_rcode(dns.rcode.NXDOMAIN)
    return r.to_wire()


def _serve(zones, host, sock):
    while True:
        wire, peer = sock.recvfrom(4096)
        try:
            out = _answer(zones, host, wire)
            if out is not None:
                sock.sendto(out, peer)
        except Exception:
            pass


def start():
    """zones served in this process (started once per process)"""
    import os
    if _state.get("pid") == os.getpid():
        return _state["zones"]
    for _ in range(50):
        socks = []
        try:
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            s.bind((HOSTS[0], 0))
            socks.append(s)
            port = s.getsockname()[1]
            for h in HOSTS[1:]:
                t = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                t.bind((h, port))
                socks.append(t)
            break
        except OSError:
            [x.close() for x in socks]
    zones = Zones()
    for h, s in zip(HOSTS, socks):
        threading.Thread(target=_serve, args=(zones, h, s), daemon=True).start()
    if "reset" not in _state:
        _state["reset"] = dns.resolver.BaseResolver.reset

        def reset(self):
            _state["reset"](self)
            self.port = _state["port"]
            self.domain = dns.name.root

        def read_resolv_conf(self, f):
            self.nameservers = [HOSTS[0]]
        dns.resolver.BaseResolver.reset = reset
        dns.resolver.BaseResolver.read_resolv_conf = read_resolv_conf
    _state.update(pid=os.getpid(), zones=zones, port=port)
    return zones
