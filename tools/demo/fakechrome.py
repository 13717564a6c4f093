#!/usr/bin/env python3
"""A stand-in for Chrome: DevTools over a WebSocket, enough for printing a page.
The print is "%PDF-FAKE" + the loaded page. FC_FAULT: print-error, print-empty,
crash-print, nav-error, silent-print; FC_RUN: shell command before printing;
FC_NAVRUN: shell command before loading; FC_IDLE: seconds from load to idle; FC_LOAD: seconds until the page is loaded."""
import base64, hashlib, json, os, select, socket, struct, subprocess, sys, time
from urllib.parse import unquote
F = os.environ.get
port = 9222
for a in sys.argv:
    if a.startswith('--remote-debugging-port='):
        port = int(a.split('=')[1])
fault = F('FC_FAULT', '')
if fault == 'exit':
    sys.exit(1)
if F('FC_PID'):
    open(F('FC_PID'), 'w').write(str(os.getpid()))
ls = socket.socket(); ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
ls.bind(('127.0.0.1', port)); ls.listen(4)
sys.stderr.write(f'\nDevTools listening on ws://127.0.0.1:{ls.getsockname()[1]}/devtools/browser/x\n'); sys.stderr.flush()
ls.settimeout(60)
c, _ = ls.accept()
c.settimeout(120)
h = b''
while b'\r\n\r\n' not in h:
    h += c.recv(4096)
key = [l.split(b': ', 1)[1] for l in h.split(b'\r\n') if l.lower().startswith(b'sec-websocket-key')][0]
acc = base64.b64encode(hashlib.sha1(key + b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11').digest())
c.sendall(b'HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: ' + acc + b'\r\n\r\n')

def rd(n):
    b = b''
    while len(b) < n:
        x = c.recv(n - len(b))
        if not x:
            time.sleep(float(F('FC_LINGER', '0')))
            sys.exit(0)
        b += x
    return b

def recv():
    while True:
        a, b = rd(2)
        n = b & 127
        if n == 126: n = struct.unpack('>H', rd(2))[0]
        elif n == 127: n = struct.unpack('>Q', rd(8))[0]
        m = rd(4) if b & 128 else b'\0' * 4
        d = bytes(x ^ m[i % 4] for i, x in enumerate(rd(n)))
        if a & 15 == 8: sys.exit(0)
        if a & 15 == 1: return json.loads(d)

def send(o):
    d = json.dumps(o).encode()
    n = len(d)
    c.sendall(bytes([0x81]) + (bytes([n]) if n < 126 else b'\x7e' + struct.pack('>H', n) if n < 65536 else b'\x7f' + struct.pack('>Q', n)) + d)

targets = []
def info(t): return {'targetId': t['id'], 'type': 'page', 'title': '', 'url': t['url'], 'attached': bool(t.get('s')), 'canAccessOpener': False, 'browserContextId': 'C'}
def new(url):
    t = {'id': f'T{len(targets)}', 'url': url, 'page': b''}
    targets.append(t)
    send({'method': 'Target.targetCreated', 'params': {'targetInfo': info(t)}})
    return t
def tab(t, o): send({'method': 'Target.receivedMessageFromTarget', 'params': {'sessionId': t['s'], 'targetId': t['id'], 'message': json.dumps(o)}})
def life(t, n): tab(t, {'method': 'Page.lifecycleEvent', 'params': {'frameId': t['id'], 'loaderId': 'L', 'name': n, 'timestamp': 1.0}})
def run(k):
    if F(k): subprocess.run(F(k), shell=True)

due = None
while True:
    if due and (time.time() >= due[0] or not select.select([c], [], [], due[0] - time.time())[0]):
        _, t, f = due; due = None
        try: t['page'] = open(f, 'rb').read()
        except OSError: pass
        for n in ('DOMContentLoaded', 'load', 'networkAlmostIdle', 'networkIdle'): life(t, n)
        continue
    v = recv(); m = v['method']; i = v['id']; p = v.get('params') or {}
    ok = lambda r: send({'id': i, 'result': r})
    if m == 'Target.setDiscoverTargets':
        new('about:blank'); ok({})
    elif m == 'Target.createTarget':
        t = new(p.get('url', 'about:blank')); ok({'targetId': t['id']})
    elif m == 'Target.attachToTarget':
        t = [t for t in targets if t['id'] == p['targetId']][0]
        t['s'] = 'S' + t['id']
        send({'method': 'Target.attachedToTarget', 'params': {'sessionId': t['s'], 'targetInfo': info(t), 'waitingForDebugger': False}})
        ok({'sessionId': t['s']})
    elif m == 'Target.sendMessageToTarget':
        ok({})
        t = [t for t in targets if t.get('s') == p['sessionId']][0]
        w = json.loads(p['message']); wi = w['id']; wm = w['method']; wp = w.get('params') or {}
        if wm == 'Page.setLifecycleEventsEnabled':
            for n in ('init', 'DOMContentLoaded', 'load', 'networkAlmostIdle', 'networkIdle'): life(t, n)
            tab(t, {'id': wi, 'result': {}})
        elif wm == 'Page.navigate':
            run('FC_NAVRUN')
            u = wp['url']
            if fault == 'nav-error':
                tab(t, {'id': wi, 'error': {'code': -32000, 'message': 'Cannot navigate'}}); continue
            try:
                f = unquote(u[len('file://'):].split('#')[0].split('?')[0])
                t['page'] = open(f, 'rb').read(); err = None
            except OSError:
                t['page'] = b''; err = 'net::ERR_FILE_NOT_FOUND'
            r = {'frameId': t['id'], 'loaderId': 'L'}
            if err: r['errorText'] = err
            t['url'] = u
            life(t, 'init')
            if F('FC_EARLYURL'): send({'method': 'Target.targetInfoChanged', 'params': {'targetInfo': info(t)}})
            tab(t, {'id': wi, 'result': r})
            if F('FC_LOAD'):
                # the page arrives later than the reply
                t['page'] = b''
                due = (time.time() + float(F('FC_LOAD')), t, f)
                continue
            time.sleep(float(F('FC_IDLE', '0.4')))
            for n in ('DOMContentLoaded', 'load', 'networkAlmostIdle', 'networkIdle'): life(t, n)
        elif wm == 'Page.printToPDF':
            run('FC_RUN')
            if fault == 'print-error': tab(t, {'id': wi, 'error': {'code': -32000, 'message': 'Printing failed'}})
            elif fault == 'print-empty': tab(t, {'id': wi, 'result': {}})
            elif fault == 'crash-print': os._exit(1)
            elif fault == 'silent-print': pass
            else: tab(t, {'id': wi, 'result': {'data': base64.b64encode(b'%PDF-FAKE\n' + t['page']).decode()}})
        else:
            tab(t, {'id': wi, 'result': {}})
    elif m == 'Browser.close':
        ok({}); sys.exit(0)
    elif m == 'Browser.getVersion':
        ok({'protocolVersion': '1.3', 'product': 'Fake', 'revision': '', 'userAgent': 'Fake', 'jsVersion': '1'})
    else:
        ok({})
