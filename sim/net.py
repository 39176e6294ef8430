"""Simulated network and process table under the real compas.rpc client and dispatcher.

Real code: compas.rpc.Proxy, compas.rpc.Dispatcher, xmlrpc.client.ServerProxy and
marshalling, xmlrpc.server.SimpleXMLRPCDispatcher, everything in compas_cem.
Stub: sockets (SimTransport), operating-system processes (SimProcess).
"""
import http.client
import sys
import xmlrpc.client
from xmlrpc.server import SimpleXMLRPCDispatcher

from . import seams
from .seams import SimCrash


class SimProcess(object):
    """Stands for the operating-system process that hosts a solver server."""

    def __init__(self, net, port, owner):
        self.net = net
        self.pid = len(net.processes)
        self.port = port
        self.owner = owner
        self.alive = True
        self.pings_until_up = 0     # pings that fail until the server listens
        self.served = 0
        self._make()

    def _make(self):
        from compas.rpc import Dispatcher
        d = SimpleXMLRPCDispatcher(allow_none=False, encoding="utf-8")
        d.register_function(lambda: 1, "ping")
        d.register_function(self._shutdown, "remote_shutdown")
        d.register_instance(Dispatcher())
        self.dispatcher = d

    def _shutdown(self):
        self.alive = False
        seams.W.log("proc", self.pid, "shutdown")
        return 1

    # Popen interface
    def terminate(self):
        if self.alive:
            seams.W.log("proc", self.pid, "terminated")
        self.alive = False

    kill = terminate

    def poll(self):
        return None if self.alive else 0

    def wait(self, timeout=None):
        return 0


class Net(object):
    def __init__(self):
        self.processes = []
        self.faults = []            # queue of faults for solve requests
        self.start_faults = []      # queue of faults for process starts
        self.delayed = []           # duplicated requests still in flight
        self.requests = []          # log of (name, outcome)
        self.executed = 0
        self.owner = "?"

    def on_time(self):
        pass

    # -- processes
    def popen(self, args, **kwargs):
        port = None
        for a, b in zip(args, args[1:]):
            if a == "--port":
                port = int(b)
        fault = self.start_faults.pop(0) if self.start_faults else None
        if fault and fault["kind"] == "spawn_fail":
            seams.W.fire("proc.spawn_fail")
            raise OSError(12, "Cannot allocate memory (injected)")
        busy = self.listening(port)
        p = SimProcess(self, port, self.owner)
        self.processes.append(p)
        if busy is not None:
            p.alive = False         # address already in use
        if fault and fault["kind"] == "slow_start":
            seams.W.fire("proc.slow_start")
            p.pings_until_up = fault["pings"]
        if fault and fault["kind"] == "dies_at_start":
            seams.W.fire("proc.dies_at_start")
            p.alive = False
        seams.W.log("popen", p.pid, port)
        return p

    def listening(self, port):
        for p in self.processes:
            if p.alive and p.port == port:
                return p
        return None

    def running(self, port=None):
        return [p for p in self.processes if p.alive and (port is None or p.port == port)]

    # -- requests
    def flush_delayed(self):
        """Deliver duplicates that were still in flight; their replies go nowhere."""
        pending, self.delayed = self.delayed, []
        for port, body in pending:
            p = self.listening(port)
            if p is None or p.pings_until_up > 0:
                continue
            seams.W.fire("net.late_duplicate")
            try:
                self._execute(p, body, None)
            except SimCrash:
                p.alive = False

    def _execute(self, p, body, crash):
        """Run a request on a server; `crash` = (events,) kills it inside the library."""
        self.executed += 1
        p.served += 1
        if crash is None:
            return p.dispatcher._marshaled_dispatch(body)
        from . import trace
        where = []
        try:
            reply = trace.run_abort(lambda: p.dispatcher._marshaled_dispatch(body), crash, SimCrash, where)
        except SimCrash:
            reply = None
        if where:                   # (the dispatcher turns any exception into a reply; a dead process does not)
            p.alive = False
            seams.W.fire("net.server_crash_mid")
            raise SimCrash("server died")
        return reply

    def call(self, port, body, name):
        """One HTTP exchange. Returns the reply body or raises what the socket would raise."""
        W = seams.W
        W.advance(0.001)
        self.flush_delayed()
        p = self.listening(port)
        if p is not None and name == "ping" and p.pings_until_up > 0:
            p.pings_until_up -= 1
            p_up = False
        else:
            p_up = p is not None and p.pings_until_up <= 0
        if not p_up:
            raise ConnectionRefusedError(111, "Connection refused (simulated)")
        if name in ("ping", "remote_shutdown"):
            if name == "remote_shutdown" and self.faults and self.faults[0]["kind"] == "shutdown_lost":
                self.faults.pop(0)
                W.fire("net.shutdown_lost")
                raise ConnectionResetError(104, "Connection reset (injected)")
            return self._execute(p, body, None)
        fault = None
        if self.faults and self.faults[0]["kind"] != "shutdown_lost":
            fault = self.faults.pop(0)
        kind = fault["kind"] if fault else None
        W.log("request", name, kind)
        if kind is None:
            return self._execute(p, body, None)
        if kind != "server_crash_mid":
            W.fire("net." + kind)
        if kind == "refused":
            raise ConnectionRefusedError(111, "Connection refused (injected)")
        if kind == "timeout":
            W.advance(60.0)
            raise TimeoutError(110, "Connection timed out (injected)")
        if kind == "reset_before":
            raise ConnectionResetError(104, "Connection reset before execution (injected)")
        if kind == "reset_after":
            self._execute(p, body, None)
            raise ConnectionResetError(104, "Connection reset after execution (injected)")
        if kind == "disconnect_after":
            self._execute(p, body, None)
            raise http.client.RemoteDisconnected("Remote end closed connection (injected)")
        if kind == "interrupt_before":
            raise KeyboardInterrupt("the user gives up (injected)")
        if kind == "interrupt_after":
            self._execute(p, body, None)
            raise KeyboardInterrupt("the user gives up (injected)")
        if kind == "duplicate":
            first = self._execute(p, body, None)
            second = self._execute(p, body, None)
            return second if fault.get("second") else first
        if kind == "duplicate_late":
            reply = self._execute(p, body, None)
            self.delayed.append((port, body))
            return reply
        if kind == "delay":
            W.advance(fault["dt"])
            reply = self._execute(p, body, None)
            W.advance(fault["dt"])
            return reply
        if kind == "truncated":
            reply = self._execute(p, body, None)
            return reply[:int(fault["at"] * len(reply.rstrip()))]
        if kind == "torn":
            (text,), _ = xmlrpc.client.loads(self._execute(p, body, None))
            if isinstance(text, str):
                text = text[:int(fault["at"] * len(text))]
            return xmlrpc.client.dumps((text,), methodresponse=True).encode("utf-8")
        if kind == "alien":
            self._execute(p, body, None)
            return xmlrpc.client.dumps((fault["text"],), methodresponse=True).encode("utf-8")
        if kind == "garbage":
            self._execute(p, body, None)
            return b"\x00<html>502 bad gateway</html>"
        if kind == "empty":
            self._execute(p, body, None)
            return xmlrpc.client.dumps(("",), methodresponse=True).encode("utf-8")
        if kind == "http500":
            raise xmlrpc.client.ProtocolError("127.0.0.1/RPC2", 500, "Internal Server Error (injected)", {})
        if kind == "crash_before":
            p.alive = False
            raise ConnectionResetError(104, "Connection reset by peer (server died)")
        if kind == "crash_after":
            self._execute(p, body, None)
            p.alive = False
            raise ConnectionResetError(104, "Connection reset by peer (server died)")
        if kind == "server_crash_mid":
            try:
                return self._execute(p, body, fault["events"])
            except SimCrash:
                raise ConnectionResetError(104, "Connection reset by peer (server died)")
        raise RuntimeError("unknown network fault %r" % kind)


class SimTransport(xmlrpc.client.Transport):
    """The client's transport; Transport.request keeps its real retry behaviour."""

    def single_request(self, host, handler, request_body, verbose=False):
        port = int(str(host).rsplit(":", 1)[1])
        net = seams.W.net
        _, name = xmlrpc.client.loads(request_body)
        reply = net.call(port, request_body, name)
        p, u = self.getparser()
        p.feed(reply)
        p.close()
        return u.close()


class SimServerProxy(xmlrpc.client.ServerProxy):
    def __init__(self, uri, *args, **kwargs):
        kwargs["transport"] = SimTransport()
        super().__init__(uri, *args, **kwargs)


def install():
    import compas.rpc.proxy as rp

    rp.ServerProxy = SimServerProxy
    rp.Popen = lambda args, **kw: seams.W.net.popen(args, **kw)
    rp.compas._os.select_python = lambda python: sys.executable
    rp.compas._os.prepare_environment = lambda *a, **k: {}
