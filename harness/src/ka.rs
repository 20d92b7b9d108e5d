//! Keep-alive: schedules of spec/MdlKeepAlive.tla run against the real endpoint in real time.
use crate::gen_::Rng;
use crate::wire;
use ntex_amqp::{AmqpServiceConfig, ConnectionRef, ControlFrame, State, client, error::Error, server, types::Message};
use ntex_io::{Io, IoBoxed, IoConfig, testing::IoTest};
use ntex_service::cfg::SharedCfg;
use ntex_service::{Service, ServiceCtx, ServiceFactory, fn_factory_with_config};
use serde_json::{Value as J, json};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::{Duration, Instant};

/// a publish service that may never be ready
struct Pub(bool);
impl Service<Message> for Pub {
    type Response = ();
    type Error = Error;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        if self.0 {
            std::future::pending::<()>().await;
        }
        Ok(())
    }
    async fn call(&self, _: Message, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        Ok(())
    }
}

/// why a connection ended
fn reason(x: &str) -> &str {
    ["KeepAliveTimeout", "ReadTimeout"].into_iter().find(|r| x.contains(r)).unwrap_or("")
}

type Log = Rc<RefCell<Vec<J>>>;

async fn ctl(hang: bool, f: ControlFrame, log: Log, t0: Instant) -> Result<(), Error> {
    if let ntex_amqp::ControlFrameKind::ProtocolError(e) = f.kind() {
        let x = reason(&format!("{e:?}")).to_string();
        if !x.is_empty() {
            log.borrow_mut().push(json!({"e":"ctl","x":x,"t":t0.elapsed().as_millis() as u64}));
        }
    }
    if hang {
        std::future::pending::<()>().await;
    }
    Ok(())
}

/// a control service that may never be ready
struct Ctl(bool, bool, Log, Instant);
impl Service<ControlFrame> for Ctl {
    type Response = ();
    type Error = Error;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        if self.0 {
            std::future::pending::<()>().await;
        }
        Ok(())
    }
    async fn call(&self, f: ControlFrame, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        ctl(self.1, f, self.2.clone(), self.3).await
    }
}

pub async fn run(s: &J, seed: u64) -> J {
    let mut r = Rng::new(seed);
    let q = 4u64;
    let unit = r.of(&[75u64, 100, 125, 160, 200, 250, 300, 333, 334, 400, 500, 700]);
    // without a timeout the schedule runs on a clock of its own; large ones are not waited for
    let idle = if s["idle"].as_u64().unwrap() == 0 { 0 } else if r.below(12) == 0 { r.of(&[60_000u64, 300_000, 65_536_000, u32::MAX as u64]) } else { unit * q + r.of(&[0u64, 0, 1, 7]) };
    let unit = unit.min(300);
    let scale = if idle > 0 && idle <= 4000 { idle / q } else { unit };
    let srv = r.below(2) == 0;
    let busy = srv && r.below(4) == 0;
    // limits of our own: a peer silent for so many seconds, or stuck within a frame, is let go
    let lim = s["lim"].as_u64().unwrap_or(0);
    let hang = lim == 0 && r.below(4) == 0;
    let busy = busy && lim == 0;
    let cbusy = lim == 0 && r.below(6) == 0;
    let log: Rc<RefCell<Vec<J>>> = Rc::default();
    crate::exec::PANICS.with(|p| p.borrow_mut().clear());
    let (tap, ep) = IoTest::create();
    tap.remote_buffer_cap(1 << 30);
    let mut ioc = IoConfig::new();
    if lim > 0 {
        let sec = |n: u64| ntex_util::time::Seconds(n as u16);
        ioc = ioc.set_keepalive_timeout(sec(lim)).set_frame_read_rate(sec(lim), sec(lim), 100_000);
    }
    let shared: SharedCfg = SharedCfg::new("H").add(AmqpServiceConfig::new()).add(ioc).into();
    let io = IoBoxed::from(Io::new(ep, shared.clone()));
    let conn: Rc<RefCell<Option<ConnectionRef>>> = Rc::default();
    let (c2, l2, l3) = (conn.clone(), log.clone(), log.clone());
    let t0 = Instant::now();
    if srv {
        tokio::task::spawn_local(async move {
            let b = server::Server::build(move |h: server::Handshake| {
                let c2 = c2.clone();
                async move {
                    match h {
                        server::Handshake::Amqp(h) => {
                            let h = h.open().await.map_err(|_| ())?;
                            *c2.borrow_mut() = Some(h.sink().get_ref());
                            Ok::<_, ()>(h.ack(()))
                        }
                        _ => Err(()),
                    }
                }
            })
            .control(fn_factory_with_config(move |_: State<()>| {
                let l3 = l3.clone();
                async move { Ok::<_, Error>(Ctl(cbusy, hang, l3, t0)) }
            }));
            let f = b.finish(fn_factory_with_config(move |_: State<()>| async move { Ok::<_, Error>(Pub(busy)) }));
            let svc = ServiceFactory::<IoBoxed, SharedCfg>::pipeline(&f, shared).await.ok().unwrap();
            let res = svc.call(io).await;
            l2.borrow_mut().push(json!({"e":"res","t": t0.elapsed().as_millis() as u64, "x": format!("{res:?}").chars().take(60).collect::<String>()}));
        });
    } else {
        tokio::task::spawn_local(async move {
            let svc = client::Connector::<String>::new().create(shared).await.ok().unwrap();
            let cl = svc.negotiate(io, None).await.ok().unwrap();
            *c2.borrow_mut() = Some(cl.sink());
            let res = cl.start(Ctl(cbusy, hang, l3, t0)).await;
            l2.borrow_mut().push(json!({"e":"res","t": t0.elapsed().as_millis() as u64, "x": format!("{res:?}").chars().take(60).collect::<String>()}));
        });
    }
    let mut buf: Vec<u8> = vec![];
    tap.write(&wire::encode_cmd(&json!({"f":"hdr","proto":0})));
    let mut open = json!({"f":"open"});
    if s["idle"].as_u64().unwrap() > 0 {
        open["idle"] = json!(idle);
    } else if r.below(2) == 0 {
        open["idle"] = json!(0);
    }
    tap.write(&wire::encode_cmd(&open));
    let mut opened = false;
    let mut lag = 0u64;
    let now = move || t0.elapsed().as_millis() as u64;
    macro_rules! drain {
        () => {{
            buf.extend_from_slice(&tap.read_any());
            while buf.len() >= 8 {
                if &buf[..4] == b"AMQP" {
                    buf.drain(..8);
                    continue;
                }
                let n = u32::from_be_bytes(buf[..4].try_into().unwrap()) as usize;
                if n < 8 || buf.len() < n {
                    break;
                }
                let fr: Vec<u8> = buf.drain(..n).collect();
                let f = wire::decode_frame(&fr).map(|m| m["f"].as_str().unwrap().to_string()).unwrap_or("bad".into());
                if f == "open" {
                    opened = true;
                    log.borrow_mut().push(json!({"e":"open","t":now()}));
                } else {
                    log.borrow_mut().push(json!({"e":"out","f":f,"t":now()}));
                }
            }
            if tap.remote_buffer(|b| !b.is_empty()) {
                tap.write(b"");
            }
        }};
    }
    // the observer looks every 5 ms and notes how late it was itself
    macro_rules! watch {
        ($until:expr) => {{
            let until: u64 = $until;
            loop {
                let b = Instant::now();
                tokio::time::sleep(Duration::from_millis(5)).await;
                lag = lag.max((b.elapsed().as_millis() as u64).saturating_sub(5));
                drain!();
                if now() >= until {
                    break;
                }
            }
        }};
    }
    for _ in 0..100 {
        tokio::task::yield_now().await;
        drain!();
        if opened && conn.borrow().is_some() {
            break;
        }
    }
    if hang {
        for c in [json!({"f":"begin","ch":0}), json!({"f":"attach","ch":0,"h":0,"role":"R","name":"x","src":"a","tgt":"b"})] {
            if srv {
                tap.write(&wire::encode_cmd(&c));
            }
        }
    }
    let mut at = now();
    let mut ops = vec![];
    if lim > 0 {
        // half seconds between two frames of the peer, then silence
        let put = |b: &[u8]| {
            log.borrow_mut().push(json!({"e":"in","t":now()}));
            tap.write(b);
        };
        put(&wire::encode_cmd(&json!({"f":"empty"})));
        for g in s["gaps"].as_array().unwrap() {
            watch!(now() + 500 * g.as_u64().unwrap());
            put(&wire::encode_cmd(&json!({"f":"empty"})));
        }
        if s["tail"] == "part" {
            put(&wire::encode_cmd(&json!({"f":"empty"}))[..1 + r.below(7)]);
        }
        watch!(now() + 1000 * lim + 1000 + 400);
        watch!(now() + 3 * lag);
    }
    for x in s["ticks"].as_array().unwrap() {
        let x = x.as_str().unwrap();
        match x {
            "none" | "in" | "app" => {
                at += scale;
                watch!(at);
                match x {
                    "in" => tap.write(&wire::encode_cmd(&json!({"f":"empty"}))),
                    "app" => {
                        let f = conn.borrow().as_ref().unwrap().open_session();
                        ops.push(tokio::task::spawn_local(async move {
                            let _ = f.attach().await;
                        }));
                    }
                    _ => {}
                }
            }
            _ => {
                match x {
                    "close" => {
                        log.borrow_mut().push(json!({"e":"end","t":now()}));
                        let c = conn.borrow().clone().unwrap();
                        let _ = c.close().await;
                    }
                    "pclose" => {
                        tap.write(&wire::encode_cmd(&json!({"f":"close"})));
                        log.borrow_mut().push(json!({"e":"end","t":now()}));
                    }
                    "eof" => {
                        log.borrow_mut().push(json!({"e":"end","t":now()}));
                        drop(tap.clone());
                    }
                    _ => {}
                }
                let more = if x == "quiet" { 2 * q * scale } else { q * scale };
                watch!(now() + more);
            }
        }
    }
    for m in crate::exec::PANICS.with(|p| p.borrow_mut().drain(..).collect::<Vec<_>>()) {
        log.borrow_mut().push(json!({"e":"panic","m":m,"t":now()}));
    }
    log.borrow_mut().push(json!({"e":"q","t":now()}));
    drop(ops);
    let ev = log.borrow().clone();
    json!({"ev": ev, "idle": idle.min(2_000_000), "lim": 1000 * lim, "tail": s["tail"].as_str().unwrap_or(""), "lag": lag, "srv": srv, "busy": busy, "hang": hang})
}
