"""A small Solana node for demonstrations: answers what the CLI asks from a
table of accounts and records what it submits.  Nothing is executed."""
import base64, hashlib, json, os, struct, subprocess, tempfile, threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def b58(b):
    n, s = int.from_bytes(b, 'big'), ''
    while n: n, r = divmod(n, 58); s = A[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s
def unb58(s, size=32):
    n = 0
    for c in s: n = n * 58 + A.index(c)
    return n.to_bytes(size, 'big')

# ed25519, for key files only
P = 2**255 - 19
D = -121665 * pow(121666, P - 2, P) % P
def _rec(y):
    xx = (y * y - 1) * pow(D * y * y + 1, P - 2, P)
    x = pow(xx, (P + 3) // 8, P)
    if (x * x - xx) % P: x = x * pow(2, (P - 1) // 4, P) % P
    return P - x if x & 1 else x
BY = 4 * pow(5, P - 2, P) % P
B = (_rec(BY), BY)
def _add(a, b):
    (x1, y1), (x2, y2) = a, b
    k = D * x1 * x2 * y1 * y2
    return ((x1 * y2 + x2 * y1) * pow(1 + k, P - 2, P) % P, (y1 * y2 + x1 * x2) * pow(1 - k, P - 2, P) % P)
def keypair(name):
    seed = hashlib.sha256(name.encode()).digest()
    h = bytearray(hashlib.sha512(seed).digest()[:32]); h[0] &= 248; h[31] &= 127; h[31] |= 64
    n, q, r = int.from_bytes(h, 'little'), B, (0, 1)
    while n:
        if n & 1: r = _add(r, q)
        q = _add(q, q); n >>= 1
    pub = (r[1] | (r[0] & 1) << 255).to_bytes(32, 'little')
    return seed + pub
def pubkey(name): return b58(keypair(name)[32:])

SYS = '1' * 32
TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA'
T22 = 'TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb'
TW = 'TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR'
def mint(prog, ext=b''):
    d = struct.pack('<I32sQBBI32s', 0, bytes(32), 0, 6, 1, 0, bytes(32))
    if ext: d += bytes(165 - 82) + b'\1' + ext
    return dict(owner=prog, data=d)
def tlv(kind, body): return struct.pack('<HH', kind, len(body)) + body
def holding(prog, of, owner, amount):
    d = unb58(of) + unb58(owner) + struct.pack('<QI32sB', amount, 0, bytes(32), 1)
    return dict(owner=prog, data=d + bytes(165 - len(d)))

class Tx:
    def __init__(self, raw):
        p = 0
        def n():
            nonlocal p
            r = s = 0
            while True:
                b = raw[p]; p += 1; r |= (b & 127) << s; s += 7
                if b < 128: return r
        def take(k):
            nonlocal p
            p += k; return raw[p - k:p]
        self.sigs = [take(64) for _ in range(n())]
        self.message = raw[p:]
        self.signers = take(1)[0]; take(2)
        self.keys = [b58(take(32)) for _ in range(n())]
        take(32)
        self.ixs = []
        for _ in range(n()):
            prog = self.keys[take(1)[0]]
            acc = [self.keys[i] for i in take(n())]
            self.ixs.append((prog, acc, take(n())))
    def unsigned(self):
        return [k for k, s in zip(self.keys, self.sigs) if s == bytes(64)]

class Node:
    """accounts: address -> dict(owner, data, lamports)"""
    def __init__(self, accounts):
        self.accounts, self.sent, self.methods = accounts, [], []
        self.lands, self.simulates = True, True
        node = self
        class H(BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'
            def log_message(self, *a): pass
            def do_POST(self):
                q = json.loads(self.rfile.read(int(self.headers['Content-Length'])))
                r = {'jsonrpc': '2.0', 'id': q['id']}
                r.update(node.call(q['method'], q.get('params', [])))
                b = json.dumps(r).encode()
                self.send_response(200)
                self.send_header('Content-Type', 'application/json')
                self.send_header('Content-Length', str(len(b)))
                self.end_headers()
                self.wfile.write(b)
        self.http = ThreadingHTTPServer(('127.0.0.1', 0), H)
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
        self.url = 'http://127.0.0.1:%d' % self.http.server_port
        self.dir = tempfile.TemporaryDirectory()
    def file(self, name):
        f = os.path.join(self.dir.name, name + '.json')
        json.dump(list(keypair(name)), open(f, 'w'))
        return f
    def rent(self, n): return (n + 128) * 6960
    def call(self, m, p):
        self.methods.append(m)
        ok = lambda v: {'result': v}
        ctx = lambda v: ok({'context': {'slot': 1, 'apiVersion': '3.0.0'}, 'value': v})
        if m == 'getAccountInfo':
            a = self.accounts.get(p[0])
            if a is None: return ctx(None)
            d = a.get('data', b'')
            return ctx({'data': [base64.b64encode(d).decode(), 'base64'], 'executable': False, 'rentEpoch': 0,
                        'lamports': a.get('lamports', self.rent(len(d))), 'owner': a.get('owner', SYS), 'space': len(d)})
        if m == 'getLatestBlockhash': return ctx({'blockhash': b58(bytes([9] * 32)), 'lastValidBlockHeight': 200})
        if m == 'getMinimumBalanceForRentExemption': return ok(self.rent(p[0]))
        if m == 'isBlockhashValid': return ctx(True)
        if m == 'getFeeForMessage': return ctx(5000)
        if m in ('getSlot', 'getBlockHeight'): return ok(100)
        if m == 'getVersion': return ok({'solana-core': '3.0.0', 'feature-set': 1})
        if m == 'simulateTransaction':
            e = None if self.simulates else {'InstructionError': [0, {'Custom': 1}]}
            return ctx({'err': e, 'logs': [], 'accounts': None, 'unitsConsumed': 1, 'returnData': None})
        if m == 'sendTransaction':
            raw = base64.b64decode(p[0]) if p[1].get('encoding') == 'base64' else None
            t = Tx(raw); self.sent.append(t)
            if t.unsigned(): return {'error': {'code': -32003, 'message': 'Transaction signature verification failure'}}
            return ok(b58(t.sigs[0]))
        if m == 'getSignatureStatuses':
            e = None if self.lands else {'InstructionError': [0, {'Custom': 1}]}
            s = {'Ok': None} if self.lands else {'Err': e}
            return ctx([{'slot': 1, 'confirmations': None, 'err': e, 'status': s, 'confirmationStatus': 'finalized'} for _ in p[0]])
        return {'error': {'code': -32601, 'message': 'Method not found'}}
    def cli(self, *args, payer='payer'):
        """Runs the CLI; returns (exit code, parsed JSON or text, the transactions it submitted)."""
        self.sent, self.methods = [], []
        c = os.path.join(self.dir.name, 'config.yml')
        open(c, 'w').write('json_rpc_url: "%s"\nwebsocket_url: ""\nkeypair_path: %s\naddress_labels: {}\ncommitment: confirmed\n' % (self.url, self.file(payer)))
        r = subprocess.run(['/repo/target/debug/spl-token-wrap', '-C', c, '--output', 'json', *map(str, args)], cwd=self.dir.name,
                           env={'HOME': self.dir.name, 'PATH': '/usr/bin:/bin'}, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=120)
        try: out = json.loads(r.stdout)
        except ValueError: out = r.stdout
        print('$', *args, '-> exit', r.returncode, r.stdout.strip()[:400], r.stderr.strip()[:400])
        return r.returncode, out, self.sent
