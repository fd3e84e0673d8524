# Helper of the demonstrations: runs /repo/_build's proxy with its own configuration in a scratch directory and
# talks to it over plain sockets.
import base64, json, os, select, shutil, signal, socket, struct, subprocess, sys, tempfile, time, uuid

BUILD = os.path.join(os.getcwd(), "_build")


def fail(text):
    print("FAIL:", text)
    sys.exit(1)


def check(condition, text):
    if not condition:
        fail(text)


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


def environment():
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = BUILD + "/libnymea-remoteproxy:" + BUILD + "/libnymea-remoteproxyclient"
    env["QT_QPA_PLATFORM"] = "offscreen"
    env["LC_ALL"] = "C.UTF-8"
    return env


class Proxy:
    def __init__(self, inactive=600000, ssl="false", start=True):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        self.unix = self.dir + "/proxy.sock"
        self.monitor = self.dir + "/monitor.sock"
        self.tcp = free_port()
        self.ws = free_port()
        subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "30", "-subj", "/CN=demo",
                        "-keyout", self.dir + "/key.pem", "-out", self.dir + "/cert.pem"],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        # Qt wants the traditional format of the key
        subprocess.run(["openssl", "rsa", "-traditional", "-in", self.dir + "/key.pem", "-out", self.dir + "/rsa.pem"],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.config = self.dir + "/proxy.conf"
        with open(self.config, "w") as f:
            f.write("[ProxyServer]\nname=demo\nwriteLogs=false\nmonitorSocket=%s\njsonRpcTimeout=10000\n"
                    "inactiveTimeout=%d\n\n[SSL]\nenabled=%s\ncertificate=%s/cert.pem\ncertificateKey=%s/rsa.pem\n\n"
                    "[UnixSocketServerTunnelProxy]\nunixSocketFileName=%s\n\n"
                    "[WebSocketServerTunnelProxy]\nhost=127.0.0.1\nport=%d\n\n"
                    "[TcpServerTunnelProxy]\nhost=127.0.0.1\nport=%d\n"
                    % (self.monitor, inactive, ssl, self.dir, self.dir, self.unix, self.ws, self.tcp))
        self.process = None
        if start:
            self.start()

    def start(self):
        self.log = open(self.dir + "/log", "ab")
        self.process = subprocess.Popen([BUILD + "/server/nymea-remoteproxy", "-c", self.config], env=environment(),
                                        stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log)
        end = time.time() + 20
        while time.time() < end:
            if self.process.poll() is not None:
                fail("the proxy ended: %s" % self.process.returncode)
            try:
                for port in (self.tcp, self.ws):
                    socket.create_connection(("127.0.0.1", port)).close()
                s = socket.socket(socket.AF_UNIX)
                s.connect(self.unix)
                s.close()
                time.sleep(0.2)
                return
            except OSError:
                time.sleep(0.05)
        fail("the proxy did not start")

    def alive(self):
        return self.process.poll() is None

    def close(self):
        if self.process and self.process.poll() is None:
            self.process.kill()
            self.process.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def statistics(self, print_all=True):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(10)
        s.connect(self.monitor)
        s.sendall(json.dumps({"method": "refresh", "params": {"printAll": print_all}}).encode())
        data = b""
        while not data.endswith(b"\n"):
            part = s.recv(65536)
            check(part, "the monitor connection was closed")
            data += part
        s.close()
        return json.loads(data)["tunnelProxyStatistic"]


END, ESC, TEND, TESC = 0xC0, 0xDB, 0xDC, 0xDD


def slip(address, payload):
    raw = struct.pack(">H", address) + payload
    return raw.replace(b"\xdb", b"\xdb\xdd").replace(b"\xc0", b"\xdb\xdc") + b"\xc0"


def unslip(frame):
    raw = frame.replace(b"\xdb\xdc", b"\xc0").replace(b"\xdb\xdd", b"\xdb")
    return struct.unpack(">H", raw[:2])[0], raw[2:]


class Peer:
    """A connection over TCP or the Unix socket."""

    def __init__(self, sock):
        self.sock = sock
        self.data = b""
        self.eof = False
        self.next_id = 0

    @staticmethod
    def tcp(proxy):
        return Peer(socket.create_connection(("127.0.0.1", proxy.tcp)))

    @staticmethod
    def unix(proxy):
        s = socket.socket(socket.AF_UNIX)
        s.connect(proxy.unix)
        return Peer(s)

    def send(self, data):
        self.sock.sendall(data)

    def pump(self, timeout):
        """Reads what is there, waits at most timeout. Returns False if nothing came."""
        if self.eof:
            return False
        if not select.select([self.sock], [], [], timeout)[0]:
            return False
        try:
            part = self.sock.recv(1 << 20)
        except ConnectionError:
            part = b""
        if not part:
            self.eof = True
        self.data += part
        return True

    def wait(self, condition, timeout=10):
        end = time.time() + timeout
        while not condition(self):
            left = end - time.time()
            if left <= 0 or self.eof:
                return condition(self)
            self.pump(left)
        return True

    def wait_closed(self, timeout=10):
        return self.wait(lambda p: p.eof, timeout)

    def quiet(self, seconds=0.5):
        end = time.time() + seconds
        while time.time() < end and not self.eof:
            self.pump(max(0, end - time.time()))

    def request(self, method, params=None, request_id=None):
        if request_id is None:
            self.next_id += 1
            request_id = self.next_id
        return json.dumps({"id": request_id, "method": method, "params": params or {}}, ensure_ascii=False).encode() + b"\n"

    def line(self, timeout=10):
        """The next line, None if there is none in time."""
        if not self.wait(lambda p: b"\n" in p.data, timeout):
            return None
        line, self.data = self.data.split(b"\n", 1)
        return line

    def call(self, method, params=None):
        self.send(self.request(method, params))
        line = self.line()
        return json.loads(line) if line is not None else None

    def frame(self, timeout=10):
        """The next SLIP frame as (address, payload), None if there is none in time."""
        if not self.wait(lambda p: b"\xc0" in p.data, timeout):
            return None
        frame, self.data = self.data.split(b"\xc0", 1)
        return unslip(frame)

    def call_frame(self, method, params=None):
        """A request of a registered server, returns its reply."""
        self.send(slip(0, self.request(method, params)))
        while True:
            frame = self.frame()
            if frame is None:
                return None
            if frame[0] == 0:
                message = json.loads(frame[1])
                if message.get("id") == self.next_id and "notification" not in message:
                    return message

    def close(self):
        self.sock.close()


class WsPeer:
    """A WebSocket connection which sends and receives text messages."""

    def __init__(self, proxy):
        self.sock = socket.create_connection(("127.0.0.1", proxy.ws))
        self.sock.settimeout(10)
        self.data = b""
        self.eof = False
        self.next_id = 0
        self.sock.sendall(("GET / HTTP/1.1\r\nHost: 127.0.0.1:%d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                           "Sec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\n\r\n"
                           % (proxy.ws, base64.b64encode(os.urandom(16)).decode())).encode())
        while b"\r\n\r\n" not in self.data:
            part = self.sock.recv(65536)
            check(part, "no websocket handshake")
            self.data += part
        self.data = self.data.split(b"\r\n\r\n", 1)[1]

    def send_frame(self, opcode, payload):
        mask = os.urandom(4)
        n = len(payload)
        head = bytes([0x80 | opcode])
        head += bytes([0x80 | n]) if n < 126 else bytes([0x80 | 126]) + struct.pack(">H", n) if n < 65536 else bytes([0x80 | 127]) + struct.pack(">Q", n)
        self.sock.sendall(head + mask + bytes(b ^ mask[i % 4] for i, b in enumerate(payload)))

    def send(self, payload):
        self.send_frame(1, payload)

    def message(self, timeout=10):
        """The next text message, None if there is none in time or the connection was closed."""
        end = time.time() + timeout
        while True:
            d = self.data
            if len(d) >= 2:
                n, at = d[1] & 127, 2
                if n == 126 and len(d) >= 4:
                    n, at = struct.unpack(">H", d[2:4])[0], 4
                elif n == 127 and len(d) >= 10:
                    n, at = struct.unpack(">Q", d[2:10])[0], 10
                elif n >= 126:
                    n = 1 << 60
                if len(d) >= at + n:
                    self.data = d[at + n:]
                    opcode = d[0] & 15
                    if opcode in (0, 1):
                        return d[at:at + n]
                    if opcode == 8:
                        self.eof = True
                        return None
                    continue
            left = end - time.time()
            if left <= 0 or self.eof or not select.select([self.sock], [], [], left)[0]:
                return None
            part = self.sock.recv(1 << 20)
            if not part:
                self.eof = True
                return None
            self.data += part

    def call(self, method, params=None):
        self.next_id += 1
        self.send(json.dumps({"id": self.next_id, "method": method, "params": params or {}}, ensure_ascii=False).encode() + b"\n")
        message = self.message()
        return json.loads(message) if message is not None else None

    def close(self):
        self.sock.close()


def new_uuid():
    return "{%s}" % uuid.uuid4()


def error_of(reply):
    if reply is None:
        return "no reply"
    if reply.get("status") != "success":
        return "error: %s" % reply.get("error")
    return reply["params"].get("tunnelProxyError")


def register_server(peer, server_uuid, name="server"):
    reply = peer.call("TunnelProxy.RegisterServer", {"serverName": name, "serverUuid": server_uuid})
    return error_of(reply)


def register_client(peer, client_uuid, server_uuid, name="client"):
    reply = peer.call("TunnelProxy.RegisterClient", {"clientName": name, "clientUuid": client_uuid, "serverUuid": server_uuid})
    return error_of(reply)


OK = "TunnelProxyErrorNoError"


def connected_address(server):
    """Waits for the next ClientConnected of the server."""
    frame = server.frame()
    check(frame is not None and frame[0] == 0, "no notification about the client: %s" % (frame,))
    message = json.loads(frame[1])
    check(message.get("notification") == "TunnelProxy.ClientConnected", "unexpected notification %s" % message)
    return message["params"]["socketAddress"]
