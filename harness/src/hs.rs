//! Handshakes: abstract scenarios of spec/MdlHandshake.tla run against the real server and client.
use crate::gen_::Rng;
use crate::wire::{self, qty};
use ntex_amqp::{AmqpServiceConfig, ControlFrame, State, client, codec::protocol as p, codec::types::Multiple, error::Error, server, types::Message};
use ntex_bytes::{ByteString, Bytes};
use ntex_io::{Io, IoBoxed, IoConfig, testing::IoTest};
use ntex_net::connect;
use ntex_service::cfg::SharedCfg;
use ntex_service::{ServiceFactory, fn_factory_with_config, fn_service};
use serde_json::{Value as J, json};
use std::cell::RefCell;
use std::rc::Rc;

/// error of the application's handshake service
#[derive(Debug)]
#[allow(dead_code)]
pub struct AErr(String);
impl From<AErr> for Error {
    fn from(_: AErr) -> Error {
        crate::exec::mk_err("amqp:internal-error")
    }
}

type Log = Rc<RefCell<Vec<J>>>;

fn list(b: &[u8]) -> J {
    json!(b)
}
fn strs(v: &J) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
}
fn bytes(v: &J) -> Vec<u8> {
    wire::unrle(v)
}
fn word(r: &mut Rng, min: usize) -> String {
    let n = min + r.below(9) as usize;
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}
fn blob(r: &mut Rng, min: usize) -> Vec<u8> {
    let n = min + if r.below(12) == 0 { 200 + r.below(120) as usize } else { r.below(9) as usize };
    (0..n).map(|_| r.below(256) as u8).collect()
}
fn words(r: &mut Rng, max: usize) -> J {
    let n = r.below(max + 1);
    json!((0..n).map(|_| word(r, 1)).collect::<Vec<_>>())
}

/// fill in the parameters of an abstract configuration
fn concrete_cfg(c: &J, r: &mut Rng) -> J {
    let mut c = c.clone();
    c["mfs"] = json!([512u64, 1024, 65535, 700][r.below(4) as usize]);
    c["chmax"] = json!(r.below(70000).min(65535));
    c["idle"] = json!([0u64, 0, 7, 1, 120, 65535][r.below(6) as usize] * 1000);
    c["host"] = json!(if r.below(2) == 0 { String::new() } else { word(r, 1) });
    c["off"] = words(r, 2);
    c["des"] = words(r, 2);
    c["e"] = json!("cfg");
    if c["side"] == "srv" {
        c["mechs"] = words(r, 3);
        if c["chal"].as_array().is_some_and(|a| !a.is_empty()) {
            c["chal"] = list(&blob(r, 1));
        }
    } else {
        for k in ["authz", "authn", "pw"] {
            c[k] = list(word(r, 0).as_bytes());
        }
        if c["chost"] != "" {
            c["chost"] = json!(word(r, 1));
        }
    }
    c
}

/// the bytes of an item and the event that tells of it
fn concrete(x: &J, c: &J, r: &mut Rng) -> (Vec<u8>, J) {
    let f = x["f"].as_str().unwrap();
    let mut ev = x.clone();
    let mut cmd = x.clone();
    cmd["form"] = json!(if r.below(2) == 0 { 0u64 } else { r.next() >> 24 });
    cmd["ext"] = json!(if r.below(4) == 0 { r.below(4) } else { 0 });
    cmd["notrim"] = json!(r.below(3) == 0);
    match f {
        "mechs" => cmd["mechs"] = words(r, 3),
        "init" => {
            let m = word(r, 1);
            let h = if r.below(2) == 0 { String::new() } else { word(r, 1) };
            let b = blob(r, 0);
            cmd["mech"] = json!(m);
            ev["mech"] = json!(m);
            if !h.is_empty() {
                cmd["host"] = json!(h);
            }
            ev["host"] = json!(h);
            if r.below(4) == 0 {
                ev["resp"] = json!([256]);
            } else {
                cmd["resp"] = list(&b);
                ev["resp"] = list(&b);
            }
        }
        "challenge" | "response" => {
            let b = blob(r, 0);
            cmd["data"] = list(&b);
            ev["data"] = list(&b);
        }
        "begin" => {
            let ch = r.below(c["chmax"].as_u64().unwrap() as usize + 1);
            cmd["ch"] = json!(ch);
            ev["ch"] = json!(ch);
        }
        "open" | "bigopen" => {
            ev["f"] = json!("open");
            cmd["f"] = json!("open");
            cmd["cid"] = json!(if f == "open" { word(r, 0) } else { "x".repeat(c["mfs"].as_u64().unwrap() as usize) });
            let mfs = [None, Some(512u64), Some(65536), Some(u32::MAX as u64)][r.below(4) as usize];
            let chmax = [None, Some(0u64), Some(1), Some(255), Some(256), Some(65535)][r.below(6) as usize];
            let idle = [None, Some(0u64), Some(1000), Some(255), Some(1_000_000)][r.below(5) as usize];
            for (k, v, d) in [("mfs", mfs, u32::MAX as u64), ("chmax", chmax, 65535), ("idle", idle, 0)] {
                if let Some(v) = v {
                    cmd[k] = json!(v);
                }
                ev[k] = json!(qty(v.unwrap_or(d)));
            }
            let h = if r.below(2) == 0 { String::new() } else { word(r, 1) };
            if !h.is_empty() {
                cmd["host"] = json!(h);
            }
            ev["host"] = json!(h);
            for k in ["off", "des"] {
                let w = words(r, 2);
                cmd[k] = w.clone();
                ev[k] = w;
            }
        }
        "junk" => {
            let ok = wire::encode_cmd(&json!({"f": (["open", "init", "empty", "mechs"][r.below(4) as usize])}));
            let b = match x["kind"].as_u64().unwrap() {
                // size below the header
                0 => vec![0; 8],
                1 => vec![0, 0, 0, 7, 2, 0, 0, 0],
                // offset
                2 => [&ok[..4], &[1], &ok[5..]].concat(),
                3 => [&ok[..4], &[255], &ok[5..]].concat(),
                // frame type
                4 => [&ok[..5], &[2 + r.below(254) as u8], &ok[6..]].concat(),
                // not a performative
                5 => wire::frame(r.below(2) as u8, 0, &[0x56, 1], 0),
                _ => wire::frame(r.below(2) as u8, 0, &[0, 0x53, 0x7e, 0x45], 0),
            };
            return (b, ev);
        }
        "part" => {
            // beginning of what is waited for, or of anything else
            let opts = [json!({"f":"hdr","proto":0}), json!({"f":"hdr","proto":3}), json!({"f":"open"}), json!({"f":"init"}), json!({"f":"outcome"}), json!({"f":"mechs"})];
            let b = wire::encode_cmd(&opts[r.below(6) as usize]);
            let n = 1 + r.below(7) as usize;
            return (b[..n].to_vec(), ev);
        }
        _ => {}
    }
    let b = wire::encode_cmd(&cmd);
    ev["sz"] = json!(b.len());
    (b, ev)
}

fn cfg_of(c: &J) -> SharedCfg {
    let mut a = AmqpServiceConfig::new()
        .set_channel_max(c["chmax"].as_u64().unwrap() as u16)
        .set_max_frame_size(c["mfs"].as_u64().unwrap() as u32)
        .set_idle_timeout((c["idle"].as_u64().unwrap() / 1000) as u16)
        .set_handshake_timeout(ntex_util::time::Seconds(c["tmo"].as_u64().unwrap() as u16));
    if c["host"] != "" {
        a = a.set_hostname(c["host"].as_str().unwrap());
    }
    let syms = |v: &J| {
        let l = strs(v);
        if l.is_empty() { None } else { Some(Multiple(l.iter().map(|s| ByteString::from(s.clone()).into()).collect())) }
    };
    if let Some(s) = syms(&c["off"]) {
        a = a.set_offered_capabilities(s);
    }
    if let Some(s) = syms(&c["des"]) {
        a = a.set_desired_capabilities(s);
    }
    SharedCfg::new("H").add(a).add(IoConfig::new()).into()
}

fn app(l: &Log, v: J) {
    let mut v = v;
    v["e"] = json!("app");
    l.borrow_mut().push(v);
}
fn syms_js(s: &Option<p::Symbols>) -> J {
    json!(s.as_ref().map(|s| s.0.iter().map(|x| x.as_str().to_string()).collect::<Vec<_>>()).unwrap_or_default())
}

async fn stage(c: &J, x: &str) -> Result<(), AErr> {
    if c["stop"] == x {
        if c["how"] == "hang" {
            std::future::pending::<()>().await;
        }
        return Err(AErr(format!("app {x}")));
    }
    Ok(())
}

fn code(n: u64) -> p::SaslCode {
    match n {
        0 => p::SaslCode::Ok,
        1 => p::SaslCode::Auth,
        2 => p::SaslCode::Sys,
        3 => p::SaslCode::SysPerm,
        _ => p::SaslCode::SysTemp,
    }
}

/// the application's handshake service
async fn accept(h: server::Handshake, c: J, l: Log) -> Result<server::HandshakeAck<()>, AErr> {
    let e = |e: server::HandshakeError| AErr(format!("{e:?}"));
    let opened = match h {
        server::Handshake::Amqp(h) => {
            app(&l, json!({"a":"plain"}));
            stage(&c, "call").await?;
            h.open().await.map_err(e)?
        }
        server::Handshake::Sasl(mut h) => {
            app(&l, json!({"a":"sasl"}));
            stage(&c, "call").await?;
            for m in strs(&c["mechs"]) {
                h = h.mechanism(m);
            }
            let i = h.init().await.map_err(e)?;
            app(
                &l,
                json!({"a":"init","mech":i.mechanism(),"resp": i.initial_response().map(list).unwrap_or(json!([256])), "host": i.hostname().unwrap_or("")}),
            );
            stage(&c, "init").await?;
            let cd = code(c["code"].as_u64().unwrap());
            let chal = bytes(&c["chal"]);
            let ok = if chal.is_empty() {
                i.outcome(cd).await.map_err(e)?
            } else {
                let x = i.challenge_with(Bytes::from(chal)).await.map_err(e)?;
                app(&l, json!({"a":"resp","data": list(x.response())}));
                stage(&c, "resp").await?;
                x.outcome(cd).await.map_err(e)?
            };
            stage(&c, "outcome").await?;
            if cd != p::SaslCode::Ok {
                return Err(AErr("refused".into()));
            }
            ok.open().await.map_err(e)?
        }
    };
    let rc = opened.remote_config();
    app(
        &l,
        json!({"a":"opened","host": rc.hostname.as_ref().map(|s| s.as_str()).unwrap_or(""), "mfs": qty(rc.max_frame_size as u64),
        "chmax": rc.channel_max, "idle": qty(rc.idle_time_out as u64), "off": syms_js(&rc.offered_capabilities), "des": syms_js(&rc.desired_capabilities)}),
    );
    stage(&c, "opened").await?;
    app(&l, json!({"a":"ack"}));
    Ok(opened.ack(()))
}

fn class(e: &client::ConnectError) -> String {
    use client::ConnectError as C;
    match e {
        C::Codec(_) => "codec".into(),
        C::HandshakeTimeout => "timeout".into(),
        C::ProtocolNegotiation(p) => {
            if format!("{p:?}").starts_with("Disconnected") { "disc".into() } else { "proto".into() }
        }
        C::ExpectOpenFrame(_) => "open".into(),
        C::Sasl(c) => format!(
            "sasl{}",
            match c {
                p::SaslCode::Ok => 0,
                p::SaslCode::Auth => 1,
                p::SaslCode::Sys => 2,
                p::SaslCode::SysPerm => 3,
                p::SaslCode::SysTemp => 4,
            }
        ),
        C::Disconnected => "disc".into(),
        C::Connect(_) => "connect".into(),
        C::Io(_) => "io".into(),
    }
}

struct Rdr {
    tap: IoTest,
    buf: Vec<u8>,
    log: Log,
}
impl Rdr {
    fn drain(&mut self) -> bool {
        let b = self.tap.read_any();
        self.buf.extend_from_slice(&b);
        while self.buf.len() >= 8 {
            if &self.buf[..4] == b"AMQP" {
                let h: Vec<u8> = self.buf.drain(..8).collect();
                let f = if h[5..] == [1, 0, 0] { "hdr" } else { "badhdr" };
                self.log.borrow_mut().push(json!({"e":"out","f":f,"proto":h[4]}));
                continue;
            }
            let n = u32::from_be_bytes(self.buf[..4].try_into().unwrap()) as usize;
            if n < 8 || self.buf.len() < n {
                break;
            }
            let fr: Vec<u8> = self.buf.drain(..n).collect();
            let ev = match wire::decode_frame(&fr) {
                Ok(mut m) => {
                    m.insert("e".into(), json!("out"));
                    for k in ["data", "resp"] {
                        if let Some(h) = m.get(k).and_then(|x| x.as_str()).map(|s| s.to_string()) {
                            m.insert(k.into(), if h == "none" { json!([256]) } else { list(&wire::unhex(&h)) });
                        }
                    }
                    if m.get("idle").is_some_and(|x| x.as_i64() == Some(-1)) {
                        m.insert("idle".into(), json!(0));
                    }
                    J::Object(m)
                }
                Err(e) => json!({"e":"out","f":"bad","why":e}),
            };
            self.log.borrow_mut().push(ev);
        }
        !b.is_empty()
    }
    async fn quiesce(&mut self) {
        let (mut idle, mut n) = (0, 0);
        let mut last = 0;
        while idle < 20 {
            tokio::task::yield_now().await;
            let got = self.drain();
            if self.tap.remote_buffer(|b| !b.is_empty()) {
                self.tap.write(b"");
            }
            let cur = self.log.borrow().len() * 1_000_000 + self.tap.remote_buffer(|b| b.len());
            idle = if got || cur != last { 0 } else { idle + 1 };
            last = cur;
            n += 1;
            if n > 100_000 {
                self.log.borrow_mut().push(json!({"e":"livelock"}));
                break;
            }
        }
    }
}

pub async fn run(s: &J, seed: u64) -> J {
    let mut r = Rng::new(seed);
    let mut c = concrete_cfg(&s["cfg"], &mut r);
    let ins: Vec<J> = s["ins"].as_array().cloned().unwrap_or_default();
    let waits = ins.iter().any(|x| x["f"] == "wait");
    c["tmo"] = json!(if waits { 1 } else { 600 });
    let log: Log = Rc::default();
    log.borrow_mut().push(c.clone());
    crate::exec::PANICS.with(|p| p.borrow_mut().clear());
    let (tap, ep) = IoTest::create();
    tap.remote_buffer_cap(1 << 30);
    let shared = cfg_of(&c);
    let io = IoBoxed::from(Io::new(ep, shared.clone()));
    let keep: Rc<RefCell<Option<client::Client>>> = Rc::default();
    let (l, c2) = (log.clone(), c.clone());
    if c["side"] == "srv" {
        tokio::task::spawn_local(async move {
            let (l1, l2, l3, l4) = (l.clone(), l.clone(), l.clone(), l.clone());
            let b = server::Server::build(move |h: server::Handshake| accept(h, c2.clone(), l1.clone())).control(fn_factory_with_config(
                move |_: State<()>| {
                    app(&l2, json!({"a":"ctl"}));
                    let l2 = l2.clone();
                    async move {
                        Ok::<_, Error>(fn_service(move |_: ControlFrame| {
                            app(&l2, json!({"a":"ctlcall"}));
                            async { Ok::<_, Error>(()) }
                        }))
                    }
                },
            ));
            let f = b.finish(fn_factory_with_config(move |_: State<()>| {
                app(&l3, json!({"a":"pub"}));
                let l3 = l3.clone();
                async move {
                    Ok::<_, Error>(fn_service(move |_: Message| {
                        app(&l3, json!({"a":"msg"}));
                        async { Ok::<_, Error>(()) }
                    }))
                }
            }));
            let svc = ServiceFactory::<IoBoxed, SharedCfg>::pipeline(&f, shared).await.ok().unwrap();
            let res = svc.call(io).await;
            let cl = match &res {
                Ok(()) => "ok",
                Err(server::ServerError::Handshake(server::HandshakeError::Timeout)) => "timeout",
                Err(_) => "err",
            };
            l4.borrow_mut().push(json!({"e":"res","r":cl,"x":format!("{res:?}").chars().take(100).collect::<String>()}));
        });
    } else {
        let keep = keep.clone();
        tokio::task::spawn_local(async move {
            let bs = |k: &str| ByteString::try_from(Bytes::from(bytes(&c2[k]))).unwrap();
            let host = Some(c2["chost"].as_str().unwrap().to_string()).filter(|s| !s.is_empty());
            let res = if c2["timed"].as_bool().unwrap() {
                let slot = Rc::new(RefCell::new(Some(io)));
                let cn = client::Connector::<String>::new().connector(fn_factory_with_config(move |_: SharedCfg| {
                    let slot = slot.clone();
                    async move {
                        Ok::<_, connect::ConnectError>(fn_service(move |_: connect::Connect<String>| {
                            let io = slot.borrow_mut().take().unwrap();
                            async move { Ok::<_, ntex_error::Error<connect::ConnectError>>(io) }
                        }))
                    }
                }));
                let svc = cn.pipeline(shared).await.ok().unwrap();
                let mut m = client::Connect::new("peer".to_string());
                if c2["sasl"].as_bool().unwrap() {
                    m = m.sasl_auth(bs("authz"), bs("authn"), bs("pw"));
                }
                if let Some(h) = host {
                    m = m.hostname(h);
                }
                svc.call(m).await
            } else {
                let svc = client::Connector::<String>::new().create(shared).await.ok().unwrap();
                let host = host.map(ByteString::from);
                if c2["sasl"].as_bool().unwrap() {
                    svc.negotiate_sasl(io, client_auth(&bs), host).await
                } else {
                    svc.negotiate(io, host).await
                }
            };
            let cl = match res {
                Ok(cl) => {
                    *keep.borrow_mut() = Some(cl);
                    "ok".into()
                }
                Err(e) => class(&e),
            };
            l.borrow_mut().push(json!({"e":"res","r":cl}));
        });
    }
    let mut rd = Rdr { tap, buf: vec![], log: log.clone() };
    rd.quiesce().await;
    let mode = r.below(5);
    let mut pend: Vec<u8> = vec![];
    let mut eof = None;
    for (i, x) in ins.iter().enumerate() {
        match x["f"].as_str().unwrap() {
            "eof" => {
                log.borrow_mut().push(json!({"e":"in","f":"eof"}));
                eof = Some(drop(rd.tap.clone()));
                rd.quiesce().await;
            }
            "wait" => {
                log.borrow_mut().push(json!({"e":"in","f":"wait"}));
                let t = std::time::Instant::now();
                while t.elapsed().as_secs() < 30 && !log.borrow().iter().any(|e| e["e"] == "res") {
                    tokio::time::sleep(std::time::Duration::from_millis(25)).await;
                    rd.drain();
                }
                rd.quiesce().await;
            }
            _ => {
                let (b, mut ev) = concrete(x, &c, &mut r);
                ev["e"] = json!("in");
                log.borrow_mut().push(ev);
                pend.extend(b);
                let next = ins.get(i + 1).map(|x| x["f"].as_str().unwrap().to_string());
                let last = next.is_none() || matches!(next.as_deref(), Some("eof" | "wait"));
                match mode {
                    // several items in one read
                    0 | 1 if !last => {}
                    0..=2 => {
                        rd.tap.write(&std::mem::take(&mut pend));
                        rd.quiesce().await;
                    }
                    // in pieces
                    3 => {
                        while !pend.is_empty() {
                            let n = (1 + r.below(12) as usize).min(pend.len());
                            let b: Vec<u8> = pend.drain(..n).collect();
                            rd.tap.write(&b);
                            rd.quiesce().await;
                        }
                    }
                    _ => {
                        for b in std::mem::take(&mut pend) {
                            rd.tap.write(&[b]);
                            for _ in 0..4 {
                                tokio::task::yield_now().await;
                            }
                            rd.drain();
                        }
                        rd.quiesce().await;
                    }
                }
            }
        }
    }
    let _ = eof;
    rd.quiesce().await;
    for m in crate::exec::PANICS.with(|p| p.borrow_mut().drain(..).collect::<Vec<_>>()) {
        log.borrow_mut().push(json!({"e":"panic","m":m}));
    }
    let closed = rd.tap.is_closed();
    log.borrow_mut().push(json!({"e":"q","closed":closed}));
    let ev = log.borrow().clone();
    json!({"ev": ev, "mode": mode})
}

fn client_auth(bs: &dyn Fn(&str) -> ByteString) -> client::SaslAuth {
    client::SaslAuth { authz_id: bs("authz"), authn_id: bs("authn"), password: bs("pw") }
}
