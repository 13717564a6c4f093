//! A model browser: an event-driven actor speaking the DevTools protocol over a
//! real WebSocket byte stream. What it "prints" is a function of the bytes of the
//! page it loaded from the simulated file system.
use crate::core::*;
use crate::net;
use crate::scenario::ChromeFault;
use crate::vfs::*;
use serde_json::{json, Value};

pub struct Target {
    pub id: String,
    pub session: Option<String>,
    pub url: String,
    pub lifecycle: bool,
    pub gen: u64,
    pub ino: Option<Ino>,
    pub content: Vec<u8>,
    pub loaded: bool,
    pub gone: bool,
}

#[derive(Clone)]
pub struct Print {
    pub chrome: usize,
    pub proc: usize,
    pub url: String,
    pub loaded: bool,
    pub content: Vec<u8>,
    pub pdf: Vec<u8>,
    pub seq: u64,
    pub target: String,
}

pub struct Chrome {
    pub id: usize,
    pub pid: i32,
    pub proc: usize,
    pub alive: bool,
    pub reaped: bool,
    pub end_time: u64,
    pub start_time: u64,
    pub port: u16,
    pub listening: bool,
    pub stderr: Option<usize>, // pipe
    pub conns: Vec<usize>,
    pub inbuf: Vec<u8>,
    pub upgraded: bool,
    pub discover: bool,
    pub targets: Vec<Target>,
    pub fault: ChromeFault,
    pub nreq: u64,
    pub silent: bool,
    pub prints: Vec<Print>,
    pub nprint: u64,
    pub ndec: u64,
    pub profile: Vec<u8>,
    pub fault_time: Option<u64>,
    pub ntarget: u64,
    pub popped: bool,
    pub op: i32,
    pub owns_profile: bool,
}

fn dead(s: &Sim, c: usize) -> bool {
    !s.net.chromes[c].alive
}

fn fired(s: &mut Sim, c: usize, what: &'static str) {
    let ch = &mut s.net.chromes[c];
    if ch.fault_time.is_none() {
        ch.fault_time = Some(s.now);
    }
    let (p, seq, op) = (ch.proc, s.seq, ch.op);
    s.count(what);
    s.faults.push(FaultRec { seq, proc: p, class: Class::Recv, what, hard: true, path: format!("browser {c}"), op });
    let l = format!("browser{c} fault {what}");
    s.trace(&l);
}

fn delay(s: &mut Sim, c: usize, base_us: u64) -> u64 {
    let n = s.net.chromes[c].ndec;
    s.net.chromes[c].ndec += 1;
    let (p, m) = (s.cfg.lat_permille, s.cfg.chrome_max_us);
    let v = s.decide(S_CHROME, 9000 + c as u64, n, |g| {
        if g.permille(p) {
            let bits = g.range(1, 64 - m.max(2).leading_zeros() as u64);
            1 + g.below(m.max(1).min(1 << bits))
        } else {
            0
        }
    });
    (base_us + v) * 1000
}

/// A page that takes its time, but not so long that anybody gives up.
fn slow_load(s: &mut Sim, c: usize) -> u64 {
    let m = s.cfg.load_max_us;
    if m == 0 {
        return 0;
    }
    let n = s.net.chromes[c].ndec;
    s.net.chromes[c].ndec += 1;
    s.decide(S_CHROME, 9000 + c as u64, n, |g| g.below(m)) * 1000
}

/// Starts a browser process for process `proc`. Returns its pid.
pub fn spawn(s: &mut Sim, proc: usize, argv: &[Vec<u8>], stderr: Option<usize>) -> i32 {
    let id = s.net.chromes.len();
    let pid = 50_000 + id as i32;
    let mut port = 0u16;
    let mut profile = vec![];
    for a in argv {
        if let Some(p) = a.strip_prefix(b"--remote-debugging-port=") {
            port = String::from_utf8_lossy(p).parse().unwrap_or(0);
        }
        if let Some(p) = a.strip_prefix(b"--user-data-dir=") {
            profile = p.to_vec();
        }
    }
    // The k-th browser a process starts meets the k-th listed fault.
    let nth = s.net.chromes.iter().filter(|c| c.proc == proc).count();
    let fault = if s.procs[proc].spec.faulty {
        s.cfg.chrome.get(nth).cloned().unwrap_or(ChromeFault::None)
    } else {
        ChromeFault::None
    };
    if let Some(p) = stderr {
        s.net.pipes[p].writers += 1;
    }
    s.net.chromes.push(Chrome {
        id,
        pid,
        proc,
        alive: true,
        reaped: false,
        end_time: 0,
        start_time: s.now,
        port,
        listening: false,
        stderr,
        conns: vec![],
        inbuf: vec![],
        upgraded: false,
        discover: false,
        targets: vec![],
        fault,
        nreq: 0,
        silent: false,
        prints: vec![],
        nprint: 0,
        ndec: 0,
        profile,
        fault_time: None,
        ntarget: 0,
        popped: false,
        op: s.my_op(),
        owns_profile: false,
    });
    let l = format!("browser{id} started for p{proc}");
    s.trace(&l);
    s.count("browser_started");
    let d = delay(s, id, 30_000);
    s.after(d, move |s| announce(s, id));
    pid
}

fn say(s: &mut Sim, c: usize, text: &str) {
    if let Some(p) = s.net.chromes[c].stderr {
        s.net.pipes[p].buf.extend(text.as_bytes());
        s.wake_desc();
    }
}

fn announce(s: &mut Sim, c: usize) {
    if dead(s, c) {
        return;
    }
    let prof = s.net.chromes[c].profile.clone();
    if !prof.is_empty() && s.net.chromes.iter().any(|x| x.id != c && x.alive && x.owns_profile && x.profile == prof) {
        s.count("browser_profile_in_use");
        say(s, c, "[0101/000000.000:ERROR:process_singleton_posix.cc(340)] The profile appears to be in use by another process. The profile is locked.\n");
        die(s, c);
        return;
    }
    s.net.chromes[c].owns_profile = true;
    // a profile file, as the real one writes
    if !prof.is_empty() && s.vfs.peek_ino(&prof, true).is_some() {
        let mut f = prof.clone();
        f.extend_from_slice(b"/DevToolsActivePort");
        s.vfs.put(&f, Node::File(b"x".to_vec()), 0o600, UID);
        let mut f = prof;
        f.extend_from_slice(b"/Default/Preferences");
        s.vfs.put(&f, Node::File(b"{}".to_vec()), 0o600, UID);
    }
    let port = s.net.chromes[c].port;
    match s.net.chromes[c].fault.clone() {
        ChromeFault::ExitAtStart { lines } => {
            fired(s, c, "browser_exit_at_start");
            for _ in 0..lines {
                say(s, c, "[0101/000000.000:ERROR:zygote_host_impl_linux.cc(90)] something is wrong\n");
            }
            die(s, c);
            return;
        }
        ChromeFault::PortInUse => {
            s.count("browser_port_in_use");
            say(s, c, "[0101/000000.000:ERROR:socket_posix.cc(144)] bind() returned an error, errno=98: Address already in use (98)\n");
            let d = delay(s, c, 50_000);
            s.after(d, move |s| die(s, c));
            return;
        }
        ChromeFault::RootRefusal => {
            fired(s, c, "browser_root_refusal");
            say(s, c, "[0101/000000.000:ERROR:zygote_host_impl_linux.cc(90)] Running as root without --no-sandbox is not supported. See https://crbug.com/638180.\n");
            die(s, c);
            return;
        }
        ChromeFault::NoListen => {
            fired(s, c, "browser_not_listening");
            let l = format!("DevTools listening on ws://127.0.0.1:{port}/devtools/browser/0-0\n");
            say(s, c, &l);
            return;
        }
        _ => {}
    }
    if s.net.ports.contains_key(&port) {
        // lost the race for the port
        s.count("browser_port_race");
        say(s, c, "[0101/000000.000:ERROR:socket_posix.cc(144)] bind() returned an error, errno=98: Address already in use (98)\n");
        s.after(50_000_000, move |s| die(s, c));
        return;
    }
    s.net.ports.insert(port, c as i64);
    s.net.chromes[c].listening = true;
    let chatter = delay(s, c, 0) % 3;
    if chatter == 1 {
        say(s, c, "\n[0101/000000.000:WARNING:sandbox_linux.cc(418)] InitializeSandbox() called with multiple threads in process gpu-process.\n");
    }
    let l = format!("\nDevTools listening on ws://127.0.0.1:{port}/devtools/browser/{:08x}-0000-4000-8000-000000000000\n", mix(c as u64) as u32);
    say(s, c, &l);
}

/// The browser process ends (crash, kill or exit): sockets and pipe close.
pub fn die(s: &mut Sim, c: usize) {
    if dead(s, c) {
        return;
    }
    let l = format!("browser{c} ends");
    s.trace(&l);
    let now = s.now;
    let ch = &mut s.net.chromes[c];
    ch.alive = false;
    ch.end_time = now;
    if ch.listening {
        let p = ch.port;
        if s.net.ports.get(&p) == Some(&(c as i64)) {
            s.net.ports.remove(&p);
        }
    }
    if let Some(p) = s.net.chromes[c].stderr.take() {
        s.net.pipes[p].writers -= 1;
    }
    for k in std::mem::take(&mut s.net.chromes[c].conns) {
        net::close_client(s, k, false);
    }
    s.wake_where(|_, w| matches!(w, Wait::Desc | Wait::Child));
}

pub fn connect(s: &mut Sim, port: u16, k: usize) -> R<()> {
    let Some(o) = s.net.ports.get(&port).copied() else { return Err(libc::ECONNREFUSED) };
    if o < 0 {
        return Err(libc::ECONNREFUSED);
    }
    let c = o as usize;
    s.net.socks[k].chrome = Some(c);
    s.net.chromes[c].conns.push(k);
    Ok(())
}

pub fn on_close(s: &mut Sim, c: usize, k: usize) {
    s.net.chromes[c].conns.retain(|x| *x != k);
}

pub fn on_data(s: &mut Sim, c: usize, k: usize, data: &[u8]) {
    if dead(s, c) || !s.net.chromes[c].conns.contains(&k) {
        return;
    }
    s.net.chromes[c].inbuf.extend_from_slice(data);
    if !s.net.chromes[c].upgraded {
        let buf = &s.net.chromes[c].inbuf;
        let Some(e) = buf.windows(4).position(|w| w == b"\r\n\r\n") else { return };
        let head = String::from_utf8_lossy(&buf[..e]).to_string();
        s.net.chromes[c].inbuf.drain(..e + 4);
        match s.net.chromes[c].fault.clone() {
            ChromeFault::HandshakeReject => {
                fired(s, c, "browser_handshake_reject");
                net::to_client(s, k, b"HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n".to_vec());
                drop_conn(s, c, k, false);
                return;
            }
            ChromeFault::HandshakeClose { reset } => {
                fired(s, c, "browser_handshake_close");
                drop_conn(s, c, k, reset);
                return;
            }
            _ => {}
        }
        let key = head
            .lines()
            .find_map(|l| {
                let (n, v) = l.split_once(':')?;
                n.eq_ignore_ascii_case("sec-websocket-key").then(|| v.trim().to_string())
            })
            .unwrap_or_default();
        let acc = b64(&sha1(format!("{key}258EAFA5-E914-47DA-95CA-C5AB0DC85B11").as_bytes()));
        let resp = format!("HTTP/1.1 101 WebSocket Protocol Handshake\r\nUpgrade: WebSocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {acc}\r\n\r\n");
        s.net.chromes[c].upgraded = true;
        s.count("browser_connected");
        net::to_client(s, k, resp.into_bytes());
    }
    // frames
    loop {
        if dead(s, c) || !s.net.chromes[c].conns.contains(&k) {
            return;
        }
        let b = &s.net.chromes[c].inbuf;
        if b.len() < 2 {
            return;
        }
        let op = b[0] & 15;
        let masked = b[1] & 128 != 0;
        let mut n = (b[1] & 127) as usize;
        let mut h = 2;
        if n == 126 {
            if b.len() < 4 {
                return;
            }
            n = u16::from_be_bytes([b[2], b[3]]) as usize;
            h = 4;
        } else if n == 127 {
            if b.len() < 10 {
                return;
            }
            n = u64::from_be_bytes(b[2..10].try_into().unwrap()) as usize;
            h = 10;
        }
        let mut mask = [0u8; 4];
        if masked {
            if b.len() < h + 4 {
                return;
            }
            mask.copy_from_slice(&b[h..h + 4]);
            h += 4;
        }
        if b.len() < h + n {
            return;
        }
        let payload: Vec<u8> = b[h..h + n].iter().enumerate().map(|(i, x)| x ^ mask[i % 4]).collect();
        s.net.chromes[c].inbuf.drain(..h + n);
        match op {
            1 => {
                if let Ok(v) = serde_json::from_slice::<Value>(&payload) {
                    request(s, c, k, v);
                }
            }
            8 => {
                net::to_client(s, k, frame(8, &payload));
                drop_conn(s, c, k, false);
            }
            9 => net::to_client(s, k, frame(10, &payload)),
            _ => {}
        }
    }
}

fn drop_conn(s: &mut Sim, c: usize, k: usize, reset: bool) {
    s.net.chromes[c].conns.retain(|x| *x != k);
    net::close_client(s, k, reset);
}

fn frame(op: u8, p: &[u8]) -> Vec<u8> {
    let mut f = vec![0x80 | op];
    if p.len() < 126 {
        f.push(p.len() as u8);
    } else if p.len() < 65536 {
        f.push(126);
        f.extend_from_slice(&(p.len() as u16).to_be_bytes());
    } else {
        f.push(127);
        f.extend_from_slice(&(p.len() as u64).to_be_bytes());
    }
    f.extend_from_slice(p);
    f
}

fn send(s: &mut Sim, c: usize, k: usize, v: Value) {
    if dead(s, c) || s.net.chromes[c].silent || !s.net.chromes[c].conns.contains(&k) {
        return;
    }
    let text = v.to_string();
    net::to_client(s, k, frame(1, text.as_bytes()));
}

fn info(t: &Target) -> Value {
    json!({"targetId": t.id, "type": "page", "title": "", "url": t.url, "attached": t.session.is_some(),
           "canAccessOpener": false, "browserContextId": "B0"})
}

/// One protocol request. `inner` requests (to a tab) count as well, so that the
/// fault step reaches every point of the exchange.
fn step_fault(s: &mut Sim, c: usize, k: usize, id: &Value, session: Option<&str>) -> bool {
    s.net.chromes[c].nreq += 1;
    let n = s.net.chromes[c].nreq;
    let f = s.net.chromes[c].fault.clone();
    match f {
        ChromeFault::At { step, ref kind, .. } if step == n => {
            match kind.as_str() {
                "error" => {
                    fired(s, c, "browser_error_reply");
                    let e = json!({"id": id, "error": {"code": -32000, "message": "Internal error"}});
                    reply(s, c, k, e, session);
                }
                "reset" => {
                    fired(s, c, "browser_reset");
                    drop_conn(s, c, k, true);
                }
                "eof" => {
                    fired(s, c, "browser_eof");
                    drop_conn(s, c, k, false);
                }
                "close" => {
                    fired(s, c, "browser_ws_close");
                    net::to_client(s, k, frame(8, &1000u16.to_be_bytes()));
                    drop_conn(s, c, k, false);
                }
                "crash" => {
                    fired(s, c, "browser_crash");
                    die(s, c);
                }
                "partial" => {
                    // part of a frame, then gone
                    fired(s, c, "browser_crash_mid_frame");
                    let mut f = frame(1, json!({"id": id, "result": {"data": "A".repeat(300)}}).to_string().as_bytes());
                    f.truncate(f.len() / 2);
                    net::to_client(s, k, f);
                    die(s, c);
                }
                "silent" => {
                    fired(s, c, "browser_silent");
                    s.net.chromes[c].silent = true;
                }
                "garbage" => {
                    // answers something that is not the protocol
                    fired(s, c, "browser_garbage_reply");
                    net::to_client(s, k, frame(1, b"{\"hello\": \"world\"}"));
                }
                "notext" => {
                    fired(s, c, "browser_empty_result");
                    reply(s, c, k, json!({"id": id, "result": {}}), session);
                }
                _ => return false, // a fault of another level
            }
            true
        }
        _ => false,
    }
}

fn reply(s: &mut Sim, c: usize, k: usize, v: Value, session: Option<&str>) {
    match session {
        None => send(s, c, k, v),
        Some(ss) => {
            let tid = s.net.chromes[c].targets.iter().find(|t| t.session.as_deref() == Some(ss)).map(|t| t.id.clone());
            send(s, c, k, json!({"method": "Target.receivedMessageFromTarget",
                "params": {"sessionId": ss, "message": v.to_string(), "targetId": tid}}));
        }
    }
}

fn request(s: &mut Sim, c: usize, k: usize, v: Value) {
    if s.net.chromes[c].silent {
        return;
    }
    let d = delay(s, c, 200);
    s.after(d, move |s| {
        if !dead(s, c) && s.net.chromes[c].conns.contains(&k) {
            handle(s, c, k, v)
        }
    });
}

fn handle(s: &mut Sim, c: usize, k: usize, v: Value) {
    let id = v["id"].clone();
    let m = v["method"].as_str().unwrap_or("").to_string();
    let l = format!("browser{c} <- {m}");
    s.trace(&l);
    if m != "Target.sendMessageToTarget" && step_fault(s, c, k, &id, None) {
        return;
    }
    let p = v["params"].clone();
    let ok = |r: Value| json!({"id": id, "result": r});
    match m.as_str() {
        "Target.setDiscoverTargets" => {
            s.net.chromes[c].discover = true;
            if s.net.chromes[c].targets.is_empty() {
                if s.cfg.extra_tabs & 1 != 0 {
                    extra(s, c, "chrome://welcome/");
                }
                new_target(s, c, "about:blank");
                if s.cfg.extra_tabs & 2 != 0 {
                    extra(s, c, "file:///usr/share/doc/index.html");
                }
            }
            if s.cfg.extra_tabs & 4 != 0 {
                send(s, c, k, json!({"method": "Target.targetCreated", "params": {"targetInfo": {"targetId": format!("WORKER{c}"), "type": "service_worker",
                    "title": "", "url": "chrome-extension://x/worker.js", "attached": false, "canAccessOpener": false, "browserContextId": "B0"}}}));
            }
            for i in 0..s.net.chromes[c].targets.len() {
                let t = info(&s.net.chromes[c].targets[i]);
                send(s, c, k, json!({"method": "Target.targetCreated", "params": {"targetInfo": t}}));
            }
            send(s, c, k, ok(json!({})));
        }
        "Target.createTarget" => {
            let url = p["url"].as_str().unwrap_or("about:blank").to_string();
            let i = new_target(s, c, &url);
            let t = info(&s.net.chromes[c].targets[i]);
            if s.net.chromes[c].discover {
                send(s, c, k, json!({"method": "Target.targetCreated", "params": {"targetInfo": t}}));
            }
            if url != "about:blank" {
                navigate(s, c, k, i, &url, None);
            }
            send(s, c, k, ok(json!({"targetId": t["targetId"]})));
            if s.cfg.extra_tabs & 8 != 0 && !s.net.chromes[c].popped {
                s.net.chromes[c].popped = true;
                let d = delay(s, c, 3_000);
                s.after(d, move |s| {
                    if !dead(s, c) && s.net.chromes[c].conns.contains(&k) && !s.net.chromes[c].silent {
                        let i = extra(s, c, "file:///usr/share/doc/news.html");
                        let t = info(&s.net.chromes[c].targets[i]);
                        send(s, c, k, json!({"method": "Target.targetCreated", "params": {"targetInfo": t}}));
                    }
                });
            }
        }
        "Target.attachToTarget" => {
            let tid = p["targetId"].as_str().unwrap_or("").to_string();
            let Some(i) = s.net.chromes[c].targets.iter().position(|t| t.id == tid && !t.gone) else {
                send(s, c, k, json!({"id": id, "error": {"code": -32602, "message": "No target with given id found"}}));
                return;
            };
            let sess = format!("SESSION{c}-{i}-{}", id);
            s.net.chromes[c].targets[i].session = Some(sess.clone());
            let t = info(&s.net.chromes[c].targets[i]);
            send(s, c, k, json!({"method": "Target.targetInfoChanged", "params": {"targetInfo": t}}));
            send(s, c, k, json!({"method": "Target.attachedToTarget",
                "params": {"sessionId": sess, "targetInfo": t, "waitingForDebugger": false}}));
            send(s, c, k, ok(json!({"sessionId": sess})));
        }
        "Target.sendMessageToTarget" => {
            let ss = p["sessionId"].as_str().unwrap_or("").to_string();
            let inner: Value = p["message"].as_str().and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null);
            send(s, c, k, ok(json!({})));
            let d = delay(s, c, 100);
            s.after(d, move |s| {
                if !dead(s, c) && s.net.chromes[c].conns.contains(&k) && !s.net.chromes[c].silent {
                    tab_request(s, c, k, ss, inner)
                }
            });
        }
        "Target.closeTarget" => {
            let tid = p["targetId"].as_str().unwrap_or("").to_string();
            close_target(s, c, k, &tid);
            send(s, c, k, ok(json!({"success": true})));
        }
        "Target.getTargets" => {
            let v: Vec<Value> = s.net.chromes[c].targets.iter().filter(|t| !t.gone).map(info).collect();
            send(s, c, k, ok(json!({"targetInfos": v})));
        }
        "Browser.getVersion" => send(s, c, k, ok(json!({"protocolVersion": "1.3", "product": "Sim/1",
            "revision": "0", "userAgent": "Sim", "jsVersion": "0"}))),
        "Browser.close" => {
            send(s, c, k, ok(json!({})));
            let d = delay(s, c, 5_000);
            s.after(d, move |s| die(s, c));
        }
        _ => send(s, c, k, json!({"id": id, "error": {"code": -32601, "message": format!("'{m}' wasn't found")}})),
    }
}

fn new_target(s: &mut Sim, c: usize, url: &str) -> usize {
    let n = s.net.chromes[c].ntarget;
    s.net.chromes[c].ntarget += 1;
    s.net.chromes[c].targets.push(Target {
        id: format!("TARGET{c}-{n}"),
        session: None,
        url: if url == "about:blank" { url.into() } else { String::new() },
        lifecycle: false,
        gen: 0,
        ino: None,
        content: vec![],
        loaded: true,
        gone: false,
    });
    s.net.chromes[c].targets.len() - 1
}

/// A page the browser opens of its own accord.
fn extra(s: &mut Sim, c: usize, url: &str) -> usize {
    s.count("browser_extra_tab");
    let i = new_target(s, c, url);
    s.net.chromes[c].targets[i].url = url.into();
    s.net.chromes[c].targets[i].content = b"<h1>Welcome</h1>".to_vec();
    i
}

fn close_target(s: &mut Sim, c: usize, k: usize, tid: &str) {
    for t in s.net.chromes[c].targets.iter_mut() {
        if t.id == tid {
            t.gone = true;
            t.session = None;
        }
    }
    send(s, c, k, json!({"method": "Target.targetDestroyed", "params": {"targetId": tid}}));
}

fn tab_event(s: &mut Sim, c: usize, k: usize, i: usize, v: Value) {
    let t = &s.net.chromes[c].targets[i];
    if let Some(ss) = t.session.clone() {
        let tid = t.id.clone();
        send(s, c, k, json!({"method": "Target.receivedMessageFromTarget",
            "params": {"sessionId": ss, "message": v.to_string(), "targetId": tid}}));
    }
}

fn lifecycle(s: &mut Sim, c: usize, k: usize, i: usize, name: &str) {
    if s.net.chromes[c].targets[i].lifecycle {
        let ts = s.now as f64 / 1e9;
        tab_event(s, c, k, i, json!({"method": "Page.lifecycleEvent",
            "params": {"frameId": "F0", "loaderId": format!("L{}", s.net.chromes[c].targets[i].gen), "name": name, "timestamp": ts}}));
    }
}

fn tab_request(s: &mut Sim, c: usize, k: usize, ss: String, v: Value) {
    let id = v["id"].clone();
    let m = v["method"].as_str().unwrap_or("").to_string();
    let l = format!("browser{c} tab <- {m}");
    s.trace(&l);
    let Some(i) = s.net.chromes[c].targets.iter().position(|t| t.session.as_deref() == Some(&ss) && !t.gone) else {
        return;
    };
    if let ChromeFault::At { step, kind, .. } = &s.net.chromes[c].fault {
        if *step == s.net.chromes[c].nreq + 1 && kind == "tabgone" {
            s.net.chromes[c].nreq += 1;
            fired(s, c, "browser_tab_gone");
            let tid = s.net.chromes[c].targets[i].id.clone();
            close_target(s, c, k, &tid);
            return;
        }
    }
    if step_fault(s, c, k, &id, Some(&ss)) {
        return;
    }
    let p = v["params"].clone();
    let ok = |r: Value| json!({"id": id, "result": r});
    match m.as_str() {
        "Page.enable" => reply(s, c, k, ok(json!({})), Some(&ss)),
        "Page.setLifecycleEventsEnabled" => {
            s.net.chromes[c].targets[i].lifecycle = p["enabled"].as_bool().unwrap_or(false);
            for n in ["init", "DOMContentLoaded", "load", "networkAlmostIdle", "networkIdle"] {
                lifecycle(s, c, k, i, n);
            }
            reply(s, c, k, ok(json!({})), Some(&ss));
        }
        "Page.navigate" => {
            let url = p["url"].as_str().unwrap_or("").to_string();
            navigate(s, c, k, i, &url, Some((id, ss)));
        }
        "Page.printToPDF" => {
            if let ChromeFault::BadPdf { kind } = s.net.chromes[c].fault.clone() {
                fired(s, c, "browser_bad_pdf_reply");
                let r = match kind {
                    0 => json!({"id": id, "result": {"data": "@@not base64@@"}}),
                    1 => json!({"id": id, "result": {}}),
                    _ => json!({"id": id, "error": {"code": -32000, "message": "Printing failed"}}),
                };
                reply(s, c, k, r, Some(&ss));
                return;
            }
            let n = s.net.chromes[c].nprint;
            s.net.chromes[c].nprint += 1;
            let rs = s.sc.rand_seed;
            let t = &s.net.chromes[c].targets[i];
            // like real ones, two prints of the same page begin alike
            let mut pdf = PDF_HEAD.to_vec();
            let content = shown(&t.content, p["pageRanges"].as_str().unwrap_or(""));
            pdf.extend_from_slice(&content);
            // fonts, images
            let mut stream = Rng::new(77);
            pdf.extend((0..s.cfg.pdf_pad).map(|_| stream.next() as u8));
            pdf.extend_from_slice(format!("\n%{:016x}\n%%EOF\n", mix(rs ^ mix((c as u64) << 20 | n))).as_bytes());
            let pr = Print {
                chrome: c,
                proc: s.net.chromes[c].proc,
                url: t.url.clone(),
                loaded: t.loaded,
                content,
                pdf: pdf.clone(),
                seq: s.seq,
                target: t.id.clone(),
            };
            s.net.chromes[c].prints.push(pr);
            s.count("browser_print");
            let d = delay(s, c, 3_000);
            s.after(d, move |s| {
                if dead(s, c) {
                    return;
                }
                if let ChromeFault::PartialPdf { keep } = s.net.chromes[c].fault.clone() {
                    // crash in the middle of the big reply
                    fired(s, c, "browser_crash_mid_pdf");
                    let v = json!({"method": "Target.receivedMessageFromTarget", "params": {"sessionId": ss,
                        "message": json!({"id": id, "result": {"data": b64(&pdf)}}).to_string()}});
                    let mut f = frame(1, v.to_string().as_bytes());
                    let n = (f.len() as u64 * keep.min(99) / 100).max(1);
                    f.truncate(n as usize);
                    net::to_client(s, k, f);
                    die(s, c);
                    return;
                }
                reply(s, c, k, json!({"id": id, "result": {"data": b64(&pdf)}}), Some(&ss));
            });
        }
        "Page.close" => {
            let tid = s.net.chromes[c].targets[i].id.clone();
            reply(s, c, k, ok(json!({})), Some(&ss));
            close_target(s, c, k, &tid);
        }
        "Target.getTargetInfo" => {
            let t = info(&s.net.chromes[c].targets[i]);
            reply(s, c, k, ok(json!({"targetInfo": t})), Some(&ss));
        }
        "Page.bringToFront" | "Page.stopLoading" | "Runtime.enable" | "Network.enable" | "Emulation.setEmulatedMedia"
        | "Log.enable" | "DOM.enable" => reply(s, c, k, ok(json!({})), Some(&ss)),
        _ => reply(s, c, k, json!({"id": id, "error": {"code": -32601, "message": format!("'{m}' wasn't found")}}), Some(&ss)),
    }
}

/// Real PDFs are not text.
pub const PDF_HEAD: &[u8] = b"%PDF-SIM\n%\xe2\xe3\xcf\xd3\0\n";

/// The part of a page (of 3000 bytes each) somebody asked for.
fn shown(b: &[u8], ranges: &str) -> Vec<u8> {
    if ranges.trim().is_empty() {
        return b.to_vec();
    }
    let want: Vec<(usize, usize)> = ranges
        .split(',')
        .map(|r| match r.split_once('-') {
            Some((x, y)) => (x.trim().parse().unwrap_or(1), y.trim().parse().unwrap_or(usize::MAX)),
            None => (r.trim().parse().unwrap_or(1), r.trim().parse().unwrap_or(usize::MAX)),
        })
        .collect();
    b.chunks(3000).enumerate().filter(|(i, _)| want.iter().any(|w| w.0 <= i + 1 && i + 1 <= w.1)).flat_map(|(_, c)| c.to_vec()).collect()
}

enum Src {
    File(Ino),
    Bytes(Vec<u8>),
    Error(&'static str),
}

/// What a browser makes of a URL.
fn resolve(s: &Sim, url: &str) -> Src {
    if url == "about:blank" {
        return Src::Bytes(vec![]);
    }
    if let Some(rest) = url.strip_prefix("data:") {
        let rest = rest.split('#').next().unwrap();
        let Some((meta, body)) = rest.split_once(',') else { return Src::Error("net::ERR_INVALID_URL") };
        let b = pct(body.as_bytes());
        if meta.ends_with(";base64") {
            return match unb64(&b) {
                Some(v) => Src::Bytes(v),
                None => Src::Error("net::ERR_INVALID_URL"),
            };
        }
        return Src::Bytes(b);
    }
    let Some(rest) = url.strip_prefix("file://") else { return Src::Error("net::ERR_NAME_NOT_RESOLVED") };
    let rest = rest.strip_prefix("localhost").unwrap_or(rest);
    let path: String = rest.chars().take_while(|c| *c != '#' && *c != '?').filter(|c| !matches!(c, '\n' | '\r' | '\t')).collect();
    let path = path.replace('\\', "/");
    let path = pct(path.as_bytes());
    if !path.starts_with(b"/") {
        return Src::Error("net::ERR_INVALID_URL");
    }
    match s.vfs.lookup(ROOT, &path, true) {
        Ok(i) if !s.vfs.readable(i) => Src::Error("net::ERR_ACCESS_DENIED"),
        Ok(i) => match s.vfs.data(i) {
            Ok(_) => Src::File(i),
            Err(_) => Src::Bytes(b"<directory listing>".to_vec()),
        },
        Err(EACCES) => Src::Error("net::ERR_ACCESS_DENIED"),
        Err(_) => Src::Error("net::ERR_FILE_NOT_FOUND"),
    }
}

fn navigate(s: &mut Sim, c: usize, k: usize, i: usize, url: &str, respond: Option<(Value, String)>) {
    let url = url.to_string();
    if let ChromeFault::NavError = s.net.chromes[c].fault {
        if let Some((id, ss)) = respond {
            fired(s, c, "browser_nav_error");
            reply(s, c, k, json!({"id": id, "result": {"frameId": "F0", "loaderId": "LX", "errorText": "net::ERR_ABORTED"}}), Some(&ss));
        }
        return;
    }
    let d = delay(s, c, 2_000);
    s.after(d, move |s| {
        if dead(s, c) {
            return;
        }
        let src = resolve(s, &url);
        let ch = &mut s.net.chromes[c];
        ch.targets[i].gen += 1;
        let gen = ch.targets[i].gen;
        ch.targets[i].url = url.clone();
        ch.targets[i].loaded = false;
        lifecycle(s, c, k, i, "init");
        let mut result = json!({"frameId": "F0", "loaderId": format!("L{gen}")});
        let t = &mut s.net.chromes[c].targets[i];
        match src {
            Src::Error(e) => {
                t.content = format!("<error page {e}>").into_bytes();
                t.ino = None;
                result["errorText"] = json!(e);
                s.count("browser_page_not_found");
            }
            Src::Bytes(b) => {
                t.content = b;
                t.ino = None;
            }
            Src::File(ino) => {
                let d = s.vfs.data(ino).unwrap();
                t.content = d[..d.len() / 2].to_vec();
                t.ino = Some(ino);
            }
        }
        let l = format!("browser{c} commits {url}");
        s.trace(&l);
        if let Some((id, ss)) = respond {
            reply(s, c, k, json!({"id": id, "result": result}), Some(&ss));
        }
        let t = info(&s.net.chromes[c].targets[i]);
        send(s, c, k, json!({"method": "Target.targetInfoChanged", "params": {"targetInfo": t}}));
        load_later(s, c, k, i, gen);
    });
}

fn load_later(s: &mut Sim, c: usize, k: usize, i: usize, gen: u64) {
    if let ChromeFault::NeverIdle = s.net.chromes[c].fault {
        fired(s, c, "browser_never_idle");
        return;
    }
    let d = delay(s, c, 10_000) + slow_load(s, c);
    s.after(d, move |s| {
        if dead(s, c) || s.net.chromes[c].targets[i].gen != gen {
            return;
        }
        if let Some(ino) = s.net.chromes[c].targets[i].ino {
            let d = s.vfs.data(ino).cloned().unwrap_or_default();
            s.net.chromes[c].targets[i].content = d;
        }
        s.net.chromes[c].targets[i].loaded = true;
        let l = format!("browser{c} loaded tab {i} {}B", s.net.chromes[c].targets[i].content.len());
        s.trace(&l);
        lifecycle(s, c, k, i, "DOMContentLoaded");
        lifecycle(s, c, k, i, "load");
        let d = delay(s, c, 500_000);
        s.after(d, move |s| {
            if dead(s, c) || s.net.chromes[c].targets[i].gen != gen {
                return;
            }
            lifecycle(s, c, k, i, "networkAlmostIdle");
            lifecycle(s, c, k, i, "networkIdle");
        });
    });
}

// ------------------------------------------------------------------- encodings

fn pct(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(v) = u8::from_str_radix(&String::from_utf8_lossy(&b[i + 1..i + 3]), 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> String {
    let mut o = Vec::with_capacity(d.len() * 4 / 3 + 4);
    for ch in d.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for j in 0..4 {
            if j <= ch.len() {
                o.push(B64[(n >> (18 - 6 * j)) as usize & 63]);
            } else {
                o.push(b'=');
            }
        }
    }
    String::from_utf8(o).unwrap()
}
fn unb64(d: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in d.iter().filter(|c| **c != b'=' && !c.is_ascii_whitespace()) {
        let v = B64.iter().position(|x| x == c)? as u32;
        acc = acc << 6 | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(o)
}
pub fn sha1(d: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((d.len() as u64) * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut bb, mut c, mut d2, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((bb & c) | (!bb & d2), 0x5A827999),
                1 => (bb ^ c ^ d2, 0x6ED9EBA1),
                2 => ((bb & c) | (bb & d2) | (c & d2), 0x8F1BBCDC),
                _ => (bb ^ c ^ d2, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d2;
            d2 = c;
            c = bb.rotate_left(30);
            bb = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, bb, c, d2, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0u8; 20];
    for (i, x) in h.iter().enumerate() {
        o[i * 4..i * 4 + 4].copy_from_slice(&x.to_be_bytes());
    }
    o
}
