//! Scenario executor: drives one real endpoint (client or server) over an in-memory pipe,
//! records everything observable as a trace of events.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

use ntex_amqp::codec::protocol as p;
use ntex_amqp::error::{AmqpProtocolError as PE, Error};
use ntex_amqp::types::{Link, Message, Outcome};
use ntex_amqp::{
    AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind as CK, Delivery, ReceiverLink,
    SenderLink, Session, State, client, server,
};
use ntex_bytes::{ByteString, Bytes};
use ntex_io::{Io, IoBoxed, IoConfig, testing::IoTest};
use ntex_service::cfg::SharedCfg;
use ntex_service::{Pipeline, Service, ServiceCtx, ServiceFactory, fn_factory_with_config};
use ntex_util::future::Either;
use serde_json::{Map, Value as J, json};

use crate::peer::Peer;
use crate::wire::{self, NONE, qty, rle, sid, unrle};

thread_local! {
    pub static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

pub type Ev = J;

pub struct Log {
    pub ev: Vec<Ev>,
    pub n: Cell<usize>,
}

pub enum LinkObj {
    S(SenderLink),
    R(ReceiverLink),
}

pub struct Objs {
    pub log: Vec<Ev>,
    pub links: BTreeMap<i64, LinkObj>,
    link_ptr: HashMap<usize, i64>,
    pub sessions: BTreeMap<i64, Session>,
    sess_ptr: HashMap<usize, i64>,
    pub dlv: BTreeMap<i64, Rc<Delivery>>,
    pub conn: Option<ConnectionRef>,
    next_uid: i64,
    // control service
    pub ctl_mode: HashMap<String, String>,
    pub ctl_wait: VecDeque<(i64, ntex_util::channel::oneshot::Sender<String>)>,
    pub msg_mode: HashMap<String, String>,
    pub msg_wait: VecDeque<(i64, ntex_util::channel::oneshot::Sender<String>)>,
    pub hnd_mode: String,
    /// readiness of handlers: "ok", "hold", "one" (one message at a time), "err:.."
    pub hnd_rdy: String,
    hnd_busy: HashMap<i64, usize>,
    /// readiness of control and publish service: "hold", "err:.."
    pub svc_rdy: HashMap<String, String>,
    svc_wak: Vec<std::task::Waker>,
    hnd_rdy_wait: HashMap<i64, Option<std::task::Waker>>,
    pub hnd_new_mode: String,
    pub hnd_wait: VecDeque<(i64, ntex_util::channel::oneshot::Sender<String>)>,
    seq: i64,
    pub done: bool,
    pub quiet: bool,
}
pub type O = Rc<RefCell<Objs>>;

impl Objs {
    pub fn ev(&mut self, e: J) {
        self.log.push(e);
    }
    fn seq(&mut self) -> i64 {
        self.seq += 1;
        self.seq
    }
    fn sess_info(&mut self, s: &Session) -> (i64, J) {
        let ptr = s.frame() as *const _ as usize;
        let uid = match self.sess_ptr.get(&ptr) {
            Some(u) => *u,
            None => {
                self.next_uid += 1;
                let u = self.next_uid;
                self.sess_ptr.insert(ptr, u);
                self.sessions.insert(u, s.clone());
                u
            }
        };
        (uid, json!({"s": uid, "lch": s.local_channel_id(), "rch": s.remote_channel_id()}))
    }
    pub fn snd_uid(&mut self, l: &SenderLink) -> i64 {
        let ptr = l.session() as *const _ as usize;
        if let Some(u) = self.link_ptr.get(&ptr) {
            return *u;
        }
        self.next_uid += 1;
        let u = self.next_uid;
        self.link_ptr.insert(ptr, u);
        self.links.insert(u, LinkObj::S(l.clone()));
        u
    }
    pub fn rcv_uid(&mut self, l: &ReceiverLink) -> i64 {
        let ptr = l.session() as *const _ as usize;
        if let Some(u) = self.link_ptr.get(&ptr) {
            return *u;
        }
        self.next_uid += 1;
        let u = self.next_uid;
        self.link_ptr.insert(ptr, u);
        self.links.insert(u, LinkObj::R(l.clone()));
        u
    }
    fn snd_info(&mut self, l: &SenderLink) -> J {
        let ln = self.snd_uid(l);
        let (s, si) = self.sess_info(l.session());
        json!({"ln": ln, "role": "S", "name": &l.name()[..], "lh": l.id(), "rh": qty(l.remote_handle() as u64), "s": s,
            "lch": si["lch"], "rch": si["rch"], "mms": l.max_message_size().map(|x| qty(x as u64)).unwrap_or(-1)})
    }
    fn rcv_info(&mut self, l: &ReceiverLink) -> J {
        let ln = self.rcv_uid(l);
        let (s, si) = self.sess_info(l.session());
        json!({"ln": ln, "role": "R", "name": &l.name()[..], "lh": l.handle(), "rh": qty(l.remote_handle() as u64), "s": s,
            "lch": si["lch"], "rch": si["rch"], "mms": -1})
    }
}

fn merge(mut a: J, b: &J) -> J {
    if let (Some(a), Some(b)) = (a.as_object_mut(), b.as_object()) {
        for (k, v) in b {
            a.insert(k.clone(), v.clone());
        }
    }
    a
}

pub fn err_js(e: &p::Error) -> String {
    let c = match e.condition() {
        p::ErrorCondition::AmqpError(a) => amqp_cond(a).to_string(),
        p::ErrorCondition::ConnectionError(c) => format!("amqp:connection:{}", match c {
            p::ConnectionError::ConnectionForced => "forced",
            p::ConnectionError::FramingError => "framing-error",
            p::ConnectionError::Redirect => "redirect",
        }),
        p::ErrorCondition::SessionError(c) => format!("amqp:session:{}", match c {
            p::SessionError::WindowViolation => "window-violation",
            p::SessionError::ErrantLink => "errant-link",
            p::SessionError::HandleInUse => "handle-in-use",
            p::SessionError::UnattachedHandle => "unattached-handle",
        }),
        p::ErrorCondition::LinkError(c) => format!("amqp:link:{}", match c {
            p::LinkError::DetachForced => "detach-forced",
            p::LinkError::TransferLimitExceeded => "transfer-limit-exceeded",
            p::LinkError::MessageSizeExceeded => "message-size-exceeded",
            p::LinkError::Redirect => "redirect",
            p::LinkError::Stolen => "stolen",
        }),
        p::ErrorCondition::Custom(s) => s.as_str().to_string(),
    };
    match e.description() {
        Some(d) if !d.is_empty() => format!("{c}|{d}"),
        _ => c,
    }
}
fn amqp_cond(a: &p::AmqpError) -> &'static str {
    use p::AmqpError::*;
    match a {
        InternalError => "amqp:internal-error",
        NotFound => "amqp:not-found",
        UnauthorizedAccess => "amqp:unauthorized-access",
        DecodeError => "amqp:decode-error",
        ResourceLimitExceeded => "amqp:resource-limit-exceeded",
        NotAllowed => "amqp:not-allowed",
        InvalidField => "amqp:invalid-field",
        NotImplemented => "amqp:not-implemented",
        ResourceLocked => "amqp:resource-locked",
        PreconditionFailed => "amqp:precondition-failed",
        ResourceDeleted => "amqp:resource-deleted",
        IllegalState => "amqp:illegal-state",
        FrameSizeTooSmall => "amqp:frame-size-too-small",
    }
}
fn opt_err(e: &Option<p::Error>) -> String {
    e.as_ref().map(err_js).unwrap_or_default()
}
/// (kind, condition)
pub fn pe_js(e: &PE) -> (String, String) {
    match e {
        PE::LinkDetached(e) => ("LinkDetached".into(), opt_err(e)),
        PE::SessionEnded(e) => ("SessionEnded".into(), opt_err(e)),
        PE::Closed(e) => ("Closed".into(), opt_err(e)),
        other => {
            let d = format!("{other:?}");
            let k: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
            (k, String::new())
        }
    }
}

fn st_js(s: &p::DeliveryState) -> String {
    match s {
        p::DeliveryState::Received(r) => format!("rcv:{}", r.section_offset()),
        p::DeliveryState::Accepted(_) => "acc".into(),
        p::DeliveryState::Rejected(r) => match r.error() {
            Some(e) => format!("rej:{}", err_js(e)),
            None => "rej".into(),
        },
        p::DeliveryState::Released(_) => "rel".into(),
        p::DeliveryState::Modified(_) => "mod".into(),
    }
}
pub fn mk_err(s: &str) -> p::Error {
    let (c, d) = s.split_once('|').unwrap_or((s, ""));
    let b = p::Error::build();
    let mut e = b
        .condition(p::ErrorCondition::Custom(ntex_amqp::codec::types::Symbol::from(c.to_string())))
        .finish();
    if !d.is_empty() {
        *e.description_mut() = Some(ByteString::from(d));
    }
    e
}
pub fn mk_state(s: &str) -> p::DeliveryState {
    let (k, a) = s.split_once(':').unwrap_or((s, ""));
    match k {
        "acc" => p::DeliveryState::Accepted(p::Accepted {}),
        "rej" => p::DeliveryState::Rejected(p::Rejected { error: if a.is_empty() { None } else { Some(mk_err(a)) } }),
        "rel" => p::DeliveryState::Released(p::Released {}),
        "mod" => p::DeliveryState::Modified(p::Modified {
            delivery_failed: Some(true),
            undeliverable_here: None,
            message_annotations: None,
        }),
        _ => p::DeliveryState::Received(p::Received { section_number: 1, section_offset: a.parse().unwrap_or(0) }),
    }
}

fn tr_body(t: &p::Transfer) -> (J, usize) {
    match t.body() {
        Some(p::TransferBody::Data(b)) => (rle(b), b.len()),
        Some(p::TransferBody::Message(_)) => (json!([[255, 1]]), 1),
        None => (json!([]), 0),
    }
}

type OpFut = Pin<Box<dyn Future<Output = J>>>;

pub struct World {
    pub o: O,
    pub tap: IoTest,
    rdbuf: Vec<u8>,
    held: Vec<u8>,
    held_ev: Vec<J>,
    pub peer: Peer,
    ops: HashMap<i64, Rc<RefCell<Option<OpFut>>>>,
    pub pending_kinds: BTreeMap<i64, String>,
    next_op: i64,
    eof_seen: bool,
    peer_closed: bool,
    close_logged: bool,
    hdr: usize,
    pub cmds: Vec<J>,
    pub tmo: bool,
    /// attaches of generated schedules: (call, (session, role, name), made since the last pause)
    atts: Vec<(i64, (u64, String, String), bool)>,
}

struct CtlSvc(O);
impl Service<ControlFrame> for CtlSvc {
    type Response = ();
    type Error = Error;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        svc_ready(&self.0, "ctl").await
    }
    async fn call(&self, f: ControlFrame, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        ctl_call(self.0.clone(), f).await
    }
    async fn shutdown(&self) {
        self.0.borrow_mut().ev(json!({"e":"sd","k":"ctl"}));
    }
}

struct MsgSvc(O);
impl Service<Message> for MsgSvc {
    type Response = ();
    type Error = Error;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        svc_ready(&self.0, "pub").await
    }
    async fn call(&self, m: Message, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
        msg_call(self.0.clone(), m).await
    }
    async fn shutdown(&self) {
        self.0.borrow_mut().ev(json!({"e":"sd","k":"pub"}));
    }
}

async fn svc_ready(o: &O, k: &'static str) -> Result<(), Error> {
    std::future::poll_fn(|cx| {
        let mut b = o.borrow_mut();
        let mode = b.svc_rdy.get(k).cloned().unwrap_or_default();
        if mode == "hold" {
            b.svc_wak.push(cx.waker().clone());
            std::task::Poll::Pending
        } else if let Some(c) = mode.strip_prefix("err:") {
            b.ev(json!({"e":"svcerr","k":k,"er":c}));
            std::task::Poll::Ready(Err(mk_err(c)))
        } else {
            std::task::Poll::Ready(Ok(()))
        }
    })
    .await
}

async fn ctl_call(o: O, f: ControlFrame) -> Result<(), Error> {
    let (n, mode, rx) = {
        let mut b = o.borrow_mut();
        let n = b.seq();
        let sinfo = match f.session() {
            Some(s) => b.sess_info(&s).1,
            None => json!({"s": -1, "lch": -1, "rch": -1}),
        };
        let (k, ev) = match f.kind() {
            CK::AttachSender(a, _, l) => {
                let i = b.snd_info(l);
                ("AttachSender", merge(json!({"h": qty(a.handle() as u64), "aname": &a.name()[..]}), &i))
            }
            CK::AttachReceiver(a, _, l) => {
                let i = b.rcv_info(l);
                ("AttachReceiver", merge(json!({"h": qty(a.handle() as u64), "aname": &a.name()[..]}), &i))
            }
            CK::Flow(fl, l) => {
                let i = b.snd_info(l);
                (
                    "Flow",
                    merge(
                        json!({"h": fl.handle().map(|x| qty(x as u64)).unwrap_or(-1), "cr": fl.link_credit().map(|x| qty(x as u64)).unwrap_or(-1),
                        "dc": fl.delivery_count().map(sid).unwrap_or(NONE)}),
                        &i,
                    ),
                )
            }
            CK::LocalDetachSender(d, l) => {
                let i = b.snd_info(l);
                ("LocalDetachSender", merge(json!({"h": qty(d.handle() as u64)}), &i))
            }
            CK::RemoteDetachSender(d, l) => {
                let i = b.snd_info(l);
                ("RemoteDetachSender", merge(json!({"h": qty(d.handle() as u64), "err": opt_err(&d.error().cloned())}), &i))
            }
            CK::LocalDetachReceiver(d, l) => {
                let i = b.rcv_info(l);
                ("LocalDetachReceiver", merge(json!({"h": qty(d.handle() as u64)}), &i))
            }
            CK::RemoteDetachReceiver(d, l) => {
                let i = b.rcv_info(l);
                ("RemoteDetachReceiver", merge(json!({"h": qty(d.handle() as u64), "err": opt_err(&d.error().cloned())}), &i))
            }
            CK::LocalSessionEnded(ls) | CK::RemoteSessionEnded(ls) => {
                let mut v = vec![];
                for l in ls {
                    v.push(match l {
                        Either::Left(l) => b.snd_uid(l),
                        Either::Right(l) => b.rcv_uid(l),
                    });
                }
                v.sort();
                (
                    if matches!(f.kind(), CK::LocalSessionEnded(_)) { "LocalSessionEnded" } else { "RemoteSessionEnded" },
                    json!({"links": v}),
                )
            }
            CK::ProtocolError(e) => {
                let (x, c) = pe_js(e);
                ("ProtocolError", json!({"x": x, "c": c}))
            }
            CK::Disconnected(e) => ("Disconnected", json!({"x": if e.is_some() {"io"} else {"eof"}})),
            CK::Closed => ("Closed", json!({})),
        };
        let k = k.to_string();
        let ev = merge(merge(json!({"e":"ctl","n":n,"k":k}), &sinfo), &ev);
        b.ev(ev);
        let mode = b.ctl_mode.get(&k).or_else(|| b.ctl_mode.get("*")).cloned().unwrap_or_else(|| "ok".into());
        if mode == "defer" {
            let (tx, rx) = ntex_util::channel::oneshot::channel();
            b.ctl_wait.push_back((n, tx));
            (n, mode, Some(rx))
        } else {
            (n, mode, None)
        }
    };
    let mode = match rx {
        Some(rx) => rx.await.unwrap_or_else(|_| "ok".into()),
        None => mode,
    };
    // answers released together are recorded when they are released
    if mode == "okall" {
        return Ok(());
    }
    o.borrow_mut().ev(json!({"e":"ctlr","n":n,"r":mode,"er":er_js(&mode, "ctl:err"),"all":false}));
    if let Some(c) = mode.strip_prefix("err") {
        return Err(mk_err(if c.is_empty() { "ctl:err" } else { &c[1..] }));
    }
    Ok(())
}

async fn msg_call(o: O, m: Message) -> Result<(), Error> {
    let (n, mode, rx) = {
        let mut b = o.borrow_mut();
        let n = b.seq();
        let (k, ev) = match &m {
            Message::Attached(a, l) => {
                let i = b.rcv_info(l);
                ("attached", merge(json!({"aname": &a.name()[..], "h": qty(a.handle() as u64)}), &i))
            }
            Message::Detached(l) => ("detached", b.rcv_info(l)),
            Message::DetachedAll(ls) => {
                let mut v: Vec<i64> = ls.iter().map(|l| b.rcv_uid(l)).collect();
                v.sort();
                ("detachedall", json!({"links": v}))
            }
            Message::Transfer(l) => ("transfer", b.rcv_info(l)),
        };
        b.ev(merge(json!({"e":"msg","n":n,"k":k}), &ev));
        let mode = b.msg_mode.get(k).cloned().unwrap_or_else(|| "ok".into());
        if mode == "defer" {
            let (tx, rx) = ntex_util::channel::oneshot::channel();
            b.msg_wait.push_back((n, tx));
            (n, mode, Some(rx))
        } else {
            (n, mode, None)
        }
    };
    let mode = match rx {
        Some(rx) => rx.await.unwrap_or_else(|_| "ok".into()),
        None => mode,
    };
    o.borrow_mut().ev(json!({"e":"msgr","n":n,"r":mode,"er":er_js(&mode, "msg:err")}));
    if let Some(c) = mode.strip_prefix("err") {
        return Err(mk_err(if c.is_empty() { "msg:err" } else { &c[1..] }));
    }
    Ok(())
}

/// outcome of a service call: "-" for success, else the error's condition
fn er_js(mode: &str, dflt: &str) -> String {
    match mode.strip_prefix("err") {
        None => "-".into(),
        Some("") => dflt.into(),
        Some(c) => c[1..].into(),
    }
}
fn pseg(p: &str) -> Vec<String> {
    p.split('/').map(|s| if s.starts_with('{') { "*".to_string() } else { s.to_string() }).collect()
}

/// error type of router handlers: an error that is turned into an outcome
#[derive(Debug)]
pub struct HErr(String);
impl From<HErr> for Error {
    fn from(e: HErr) -> Error {
        mk_err(&e.0)
    }
}
impl TryFrom<HErr> for Outcome {
    type Error = Error;
    fn try_from(e: HErr) -> Result<Outcome, Error> {
        if e.0.starts_with("fatal") { Err(mk_err(&e.0)) } else { Ok(Outcome::Error(mk_err(&e.0))) }
    }
}

pub struct HndSvc {
    o: O,
    hid: i64,
}
/// a readiness check in progress
struct RdyWait(O, i64);
impl Drop for RdyWait {
    fn drop(&mut self) {
        self.0.borrow_mut().hnd_rdy_wait.remove(&self.1);
    }
}
impl Objs {
    fn wake_rdy(&mut self) -> Vec<std::task::Waker> {
        self.hnd_rdy_wait.values_mut().filter_map(|w| w.take()).collect()
    }
    pub fn hw(&self) -> usize {
        self.hnd_wait.len() + self.hnd_rdy_wait.len()
    }
}
impl Service<p::Transfer> for HndSvc {
    type Response = Outcome;
    type Error = HErr;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), HErr> {
        let w = RdyWait(self.o.clone(), self.o.borrow_mut().seq());
        std::future::poll_fn(|cx| {
            let mut b = self.o.borrow_mut();
            let mode = b.hnd_rdy.clone();
            if mode == "hold" || (mode == "one" && b.hnd_busy.get(&self.hid).copied().unwrap_or(0) > 0) {
                b.hnd_rdy_wait.insert(w.1, Some(cx.waker().clone()));
                return std::task::Poll::Pending;
            }
            if let Some(c) = mode.strip_prefix("err:") {
                b.ev(json!({"e":"hnd","k":"rdyerr","hid":self.hid}));
                return std::task::Poll::Ready(Err(HErr(c.into())));
            }
            std::task::Poll::Ready(Ok(()))
        })
        .await
    }
    async fn call(&self, t: p::Transfer, _: ServiceCtx<'_, Self>) -> Result<Outcome, HErr> {
        let (n, mode, rx) = {
            let mut b = self.o.borrow_mut();
            *b.hnd_busy.entry(self.hid).or_default() += 1;
            let n = b.seq();
            let (body, blen) = tr_body(&t);
            b.ev(json!({"e":"hnd","k":"msg","n":n,"hid":self.hid,"did":t.delivery_id().map(sid).unwrap_or(NONE),
                "tag": t.delivery_tag().map(|t| wire::hex(t)).unwrap_or_default(),"body":body,"blen":blen}));
            let mode = b.hnd_mode.clone();
            if mode == "defer" {
                let (tx, rx) = ntex_util::channel::oneshot::channel();
                b.hnd_wait.push_back((n, tx));
                (n, mode, Some(rx))
            } else {
                (n, mode, None)
            }
        };
        let mode = match rx {
            Some(rx) => rx.await.unwrap_or_else(|_| "acc".into()),
            None => mode,
        };
        let (k, a) = mode.split_once(':').unwrap_or((&mode, ""));
        let out = match k {
            "acc" => "acc".to_string(),
            "rej" if a.is_empty() => "rej".to_string(),
            "rej" => format!("rej:{a}"),
            _ => format!("rej:{}", if a.is_empty() { "h:err" } else { a }),
        };
        let ws = {
            let mut b = self.o.borrow_mut();
            b.ev(json!({"e":"hndr","n":n,"hid":self.hid,"r":mode,"er":"-","out":out}));
            *b.hnd_busy.get_mut(&self.hid).unwrap() -= 1;
            b.wake_rdy()
        };
        ws.into_iter().for_each(|w| w.wake());
        match k {
            "acc" => Ok(Outcome::Accept),
            "rej" if a.is_empty() => Ok(Outcome::Reject),
            "rej" => Ok(Outcome::Error(mk_err(a))),
            _ => Err(HErr(if a.is_empty() { "h:err".into() } else { a.into() })),
        }
    }
    async fn shutdown(&self) {
        self.o.borrow_mut().ev(json!({"e":"hnd","k":"shutdown","hid":self.hid}));
    }
}

fn hnd_factory(
    o: O,
    pat: &'static str,
) -> impl ServiceFactory<p::Transfer, Link<()>, Response = Outcome, Error = HErr, InitError = Error, Service = HndSvc> {
    fn_factory_with_config(move |l: Link<()>| {
        let o = o.clone();
        async move {
            let (hid, mode, rx) = {
                let mut b = o.borrow_mut();
                let hid = b.seq();
                let i = b.rcv_info(l.receiver());
                let addr = l.path().get_ref().to_string();
                b.ev(merge(json!({"e":"hnd","k":"new","hid":hid,"pat":pat,"addr":addr,"pseg":pseg(pat),"aseg":wire::segs(&addr)}), &i));
                let mode = b.hnd_new_mode.clone();
                if mode == "defer" {
                    let (tx, rx) = ntex_util::channel::oneshot::channel();
                    b.hnd_wait.push_back((hid, tx));
                    (hid, mode, Some(rx))
                } else {
                    (hid, mode, None)
                }
            };
            let mode = match rx {
                Some(rx) => rx.await.unwrap_or_else(|_| "ok".into()),
                None => mode,
            };
            o.borrow_mut().ev(json!({"e":"hndr","n":hid,"hid":hid,"r":mode,"er":er_js(&mode, "hnd:init"),"out":""}));
            if let Some(c) = mode.strip_prefix("err") {
                return Err(mk_err(if c.is_empty() { "hnd:init" } else { &c[1..] }));
            }
            Ok(HndSvc { o, hid })
        }
    })
}

pub fn mk_cfg(c: &J) -> SharedCfg {
    let mut a = AmqpServiceConfig::new();
    if let Some(x) = c["chmax"].as_u64() {
        a = a.set_channel_max(x as u16);
    }
    if let Some(x) = c["mfs"].as_i64() {
        a = a.set_max_frame_size(x as u32);
    }
    if let Some(x) = c["idle"].as_u64() {
        a = a.set_idle_timeout(x as u16);
    }
    if let Some(x) = c["maxsize"].as_u64() {
        a = a.set_max_size(x as usize);
    }
    if let Some(x) = c["hs_timeout"].as_u64() {
        a = a.set_handshake_timeout(ntex_util::time::Seconds(x as u16));
    }
    if let Some(x) = c["host"].as_str() {
        a = a.set_hostname(x);
    }
    SharedCfg::new("H").add(a).add(IoConfig::new()).into()
}

impl World {
    pub fn new_objs() -> O {
        Rc::new(RefCell::new(Objs {
            log: vec![],
            links: BTreeMap::new(),
            link_ptr: HashMap::new(),
            sessions: BTreeMap::new(),
            sess_ptr: HashMap::new(),
            dlv: BTreeMap::new(),
            conn: None,
            next_uid: 0,
            ctl_mode: HashMap::new(),
            ctl_wait: VecDeque::new(),
            msg_mode: HashMap::new(),
            msg_wait: VecDeque::new(),
            hnd_mode: "acc".into(),
            hnd_rdy: "ok".into(),
            hnd_busy: HashMap::new(),
            svc_rdy: HashMap::new(),
            svc_wak: vec![],
            hnd_rdy_wait: HashMap::new(),
            hnd_new_mode: "ok".into(),
            hnd_wait: VecDeque::new(),
            seq: 0,
            done: false,
            quiet: false,
        }))
    }

    /// Start an endpoint and perform the plain handshake.
    /// cfg: {"side":"srv"|"cli","pub":"raw"|"router","local":{chmax,mfs},"remote":{chmax,mfs,idle}}
    pub async fn start(cfg: &J) -> World {
        let o = Self::new_objs();
        let (tap, ep) = IoTest::create();
        tap.remote_buffer_cap(1 << 30);
        let shared = mk_cfg(&cfg["local"]);
        let io = IoBoxed::from(Io::new(ep, shared.clone()));
        let srv = cfg["side"].as_str() != Some("cli");
        let mut w = World {
            o: o.clone(),
            tap,
            rdbuf: vec![],
            held: vec![],
            held_ev: vec![],
            peer: Peer::default(),
            ops: HashMap::new(),
            pending_kinds: BTreeMap::new(),
            next_op: 0,
            eof_seen: false,
            peer_closed: false,
            close_logged: false,
            hdr: 0,
            cmds: vec![],
            tmo: false,
            atts: vec![],
        };
        let router = cfg["pub"].as_str() == Some("router");
        {
            let l = &cfg["local"];
            let r = &cfg["remote"];
            o.borrow_mut().ev(json!({"e":"cfg","side": if srv {"srv"} else {"cli"}, "pub": if router {"router"} else {"raw"},
                "lmfs": l["mfs"].as_i64().unwrap_or(65535).min(wire::CAP), "lch": l["chmax"].as_i64().unwrap_or(1024),
                "lmax": l["maxsize"].as_i64().unwrap_or(0),
                "rmfs": r["mfs"].as_i64().map(|x| qty(x as u64)).unwrap_or(wire::CAP), "rch": r["chmax"].as_i64().unwrap_or(65535),
                "routes": if router { json!([["a"], ["b", "*"]]) } else { json!([]) }}));
        }
        let slot: Rc<RefCell<Option<ConnectionRef>>> = Rc::default();
        let o2 = o.clone();
        if srv {
            let slot2 = slot.clone();
            let oc = o.clone();
            let om = o.clone();
            tokio::task::spawn_local(async move {
                let b = server::Server::build(move |h: server::Handshake| {
                    let slot = slot2.clone();
                    async move {
                        match h {
                            server::Handshake::Amqp(h) => {
                                let h = h.open().await.map_err(|_| ())?;
                                *slot.borrow_mut() = Some(h.sink().get_ref());
                                Ok::<_, ()>(h.ack(()))
                            }
                            server::Handshake::Sasl(_) => Err(()),
                        }
                    }
                })
                .control(fn_factory_with_config(move |_: State<()>| {
                    let oc = oc.clone();
                    async move { Ok::<_, Error>(CtlSvc(oc)) }
                }));
                let res = if router {
                    let s = b.finish(
                        server::Router::<()>::builder()
                            .service("a", hnd_factory(om.clone(), "a"))
                            .service("b/{id}", hnd_factory(om.clone(), "b/{id}"))
                            .build(),
                    );
                    let svc = ServiceFactory::<IoBoxed, SharedCfg>::pipeline(&s, shared).await.ok().unwrap();
                    svc.call(io).await.map_err(|e| format!("{e:?}"))
                } else {
                    let s = b.finish(fn_factory_with_config(move |_: State<()>| {
                        let om = om.clone();
                        async move {
                            Ok::<_, Error>(MsgSvc(om))
                        }
                    }));
                    let svc = ServiceFactory::<IoBoxed, SharedCfg>::pipeline(&s, shared).await.ok().unwrap();
                    svc.call(io).await.map_err(|e| format!("{e:?}"))
                };
                let mut b = o2.borrow_mut();
                b.done = true;
                b.ev(json!({"e":"done","r": if res.is_ok() {"ok"} else {"err"}, "x": res.err().unwrap_or_default().chars().take(80).collect::<String>()}));
            });
        } else {
            let slot2 = slot.clone();
            let host = cfg["host"].as_str().map(ByteString::from);
            tokio::task::spawn_local(async move {
                let c = client::Connector::<String>::new();
                let svc = c.create(shared).await.ok().unwrap();
                match svc.negotiate(io, host).await {
                    Ok(client) => {
                        *slot2.borrow_mut() = Some(client.sink());
                        let res = client.start(CtlSvc(o2.clone())).await;
                        let mut b = o2.borrow_mut();
                        b.done = true;
                        b.ev(json!({"e":"done","r": if res.is_ok() {"ok"} else {"err"}, "x": res.err().map(|e| format!("{e:?}")).unwrap_or_default().chars().take(80).collect::<String>()}));
                    }
                    Err(e) => {
                        let mut b = o2.borrow_mut();
                        b.done = true;
                        b.ev(json!({"e":"done","r":"err","x":format!("{e:?}").chars().take(80).collect::<String>()}));
                    }
                }
            });
        }
        // handshake by the peer (not traced: C16/C17 have their own drivers)
        w.tap.write(wire::encode_cmd(&json!({"f":"hdr","proto":0})));
        let mut open = json!({"f":"open","cid":"peer"});
        for k in ["mfs", "chmax", "idle"] {
            if !cfg["remote"][k].is_null() {
                open[k] = cfg["remote"][k].clone();
            }
        }
        w.tap.write(wire::encode_cmd(&open));
        w.hdr = 8;
        for _ in 0..40 {
            tokio::task::yield_now().await;
        }
        o.borrow_mut().conn = slot.borrow().clone();
        w.quiesce().await;
        w
    }

    /// read what the endpoint wrote, append `out` events
    pub fn drain(&mut self) -> bool {
        let b = self.tap.read_any();
        let got = !b.is_empty();
        self.rdbuf.extend_from_slice(&b);
        if self.hdr > 0 && self.rdbuf.len() >= self.hdr {
            let h: Vec<u8> = self.rdbuf.drain(..8).collect();
            self.hdr = 0;
            if &h[..4] != b"AMQP" {
                self.o.borrow_mut().ev(json!({"e":"out","f":"bad","why":"header"}));
            }
        }
        if self.hdr > 0 {
            return got;
        }
        loop {
            if self.rdbuf.len() < 8 {
                break;
            }
            let n = u32::from_be_bytes(self.rdbuf[..4].try_into().unwrap()) as usize;
            if n < 8 {
                self.o.borrow_mut().ev(json!({"e":"out","f":"bad","why":"size"}));
                self.rdbuf.clear();
                break;
            }
            if self.rdbuf.len() < n {
                break;
            }
            let fr: Vec<u8> = self.rdbuf.drain(..n).collect();
            match wire::decode_frame(&fr) {
                Ok(m) => {
                    let mut ev = Map::new();
                    ev.insert("e".into(), json!("out"));
                    ev.extend(m);
                    let ev = J::Object(ev);
                    self.peer.on_out(&ev);
                    self.o.borrow_mut().ev(ev);
                }
                Err(e) => {
                    self.o.borrow_mut().ev(json!({"e":"out","f":"bad","why":e}));
                }
            }
        }
        if self.tap.is_closed() && !self.close_logged {
            self.close_logged = true;
            self.o.borrow_mut().ev(json!({"e":"ioend"}));
        }
        got
    }

    pub async fn quiesce(&mut self) {
        self.tap.remote_buffer_cap(1 << 30);
        let mut idle = 0;
        let mut n = 0;
        let mut last = (self.o.borrow().log.len(), 0usize, 0usize);
        while idle < 25 {
            tokio::task::yield_now().await;
            let got = self.drain();
            // the test transport reads one buffer per wake-up
            if self.tap.remote_buffer(|b| !b.is_empty()) {
                self.tap.write(b"");
            }
            let cur = (
                self.o.borrow().log.len(),
                PANICS.with(|p| p.borrow().len()),
                self.tap.remote_buffer(|b| b.len()),
            );
            if got || cur != last {
                idle = 0;
                last = cur;
            } else {
                idle += 1;
            }
            n += 1;
            if n > 200_000 {
                self.o.borrow_mut().ev(json!({"e":"livelock"}));
                self.tmo = true;
                break;
            }
        }
        if std::env::var("VH_DBG").is_ok() {
            eprintln!("q at {} unread {} loops {n}", self.o.borrow().log.len(), self.tap.remote_buffer(|b| b.len()));
        }
        self.note_panics();
        // nothing is due while a service is not ready
        if !self.o.borrow().svc_rdy.values().any(|m| m == "hold") {
            self.project();
        }
        self.atts.iter_mut().for_each(|a| a.2 = false);
    }

    fn note_panics(&mut self) {
        let ps: Vec<String> = PANICS.with(|p| p.borrow_mut().drain(..).collect());
        for m in ps {
            self.o.borrow_mut().ev(json!({"e":"panic","m":m}));
        }
    }

    fn project(&mut self) {
        let mut o = self.o.borrow_mut();
        let o = &mut *o;
        let (open, err, cond) = match &o.conn {
            Some(c) => {
                let (x, cnd) = c.get_error().map(|e| pe_js(&e)).unwrap_or_default();
                (c.is_opened(), x, cnd)
            }
            None => (false, "none".into(), String::new()),
        };
        let ss: Vec<J> = o.sessions.iter().map(|(u, s)| json!([u, qty(s.remote_window_size() as u64)])).collect();
        let ls: Vec<J> = o
            .links
            .iter()
            .map(|(u, l)| match l {
                LinkObj::S(l) => json!([u, l.is_closed(), qty(l.credit() as u64)]),
                LinkObj::R(l) => json!([u, l.is_closed(), qty(l.credit() as u64)]),
            })
            .collect();
        let cw = o.ctl_wait.len();
        let mw = o.msg_wait.len();
        let hw = o.hw();
        let done = o.done;
        o.ev(json!({"e":"q","open":open,"x":err,"c":cond,"ss":ss,"ls":ls,"cw":cw,"mw":mw,"hw":hw,"done":done}));
    }

    fn spawn_op(&mut self, id: i64, kind: &str, mut fut: OpFut) {
        let kind = kind.to_string();
        let mut cx = Context::from_waker(Waker::noop());
        let o = self.o.clone();
        let done = move |o: &O, kind: &str, v: J| {
            let ev = merge(json!({"e":"ret","op":id,"k":kind}), &v);
            o.borrow_mut().ev(ev);
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
        match r {
            Err(_) => {
                done(&o, &kind, json!({"r":"panic","x":"panic","c":""}));
            }
            Ok(Poll::Ready(v)) => done(&o, &kind, v),
            Ok(Poll::Pending) => {
                let slot = Rc::new(RefCell::new(Some(fut)));
                self.ops.insert(id, slot.clone());
                self.pending_kinds.insert(id, kind.clone());
                tokio::task::spawn_local(async move {
                    std::future::poll_fn(|cx| {
                        let mut s = slot.borrow_mut();
                        match s.as_mut() {
                            None => Poll::Ready(()),
                            Some(f) => match f.as_mut().poll(cx) {
                                Poll::Ready(v) => {
                                    *s = None;
                                    done(&o, &kind, v);
                                    Poll::Ready(())
                                }
                                Poll::Pending => Poll::Pending,
                            },
                        }
                    })
                    .await
                });
            }
        }
    }

    pub fn pending_ops(&mut self) -> Vec<(i64, String)> {
        let ops = &self.ops;
        self.pending_kinds.retain(|k, _| ops.get(k).is_some_and(|s| s.borrow().is_some()));
        self.pending_kinds.iter().map(|(k, v)| (*k, v.clone())).collect()
    }

    /// Execute one command (already resolved)
    pub async fn step(&mut self, c: &J) {
        self.cmds.push(c.clone());
        let c = self.peer.resolve(c);
        let c = self.resolve_app(c);
        let c = &c;
        match c["c"].as_str().unwrap_or("") {
            "in" if self.peer_closed => {}
            // what the peer has not seen yet it cannot refer to
            "in" if c["skip"] == true => {}
            "in" => {
                let mut bytes = wire::encode_cmd(c);
                if let Some(t) = c["trunc"].as_u64() {
                    bytes.truncate(t as usize);
                }
                let mut evs: Vec<J> = vec![];
                if c["f"] == "raw" || c["trunc"].is_u64() {
                    evs.push(json!({"e":"in","f": "bad", "why": c["why"].as_str().unwrap_or("raw"), "ch": 0}));
                } else {
                    match wire::decode_frame(&bytes) {
                        Ok(m) => {
                            let mut ev = Map::new();
                            ev.insert("e".into(), json!("in"));
                            ev.extend(m);
                            evs.push(J::Object(ev));
                        }
                        Err(e) => evs.push(json!({"e":"in","f":"bad","why":e,"ch":0})),
                    }
                }
                for e in &evs {
                    self.peer.on_in(e);
                }
                self.held.extend(bytes);
                self.held_ev.extend(evs);
                if !c["hold"].as_bool().unwrap_or(false) {
                    self.flush_in(c["split"].as_u64().unwrap_or(0) as usize).await;
                }
            }
            "eof" => {
                self.flush_in(0).await;
                self.drain();
                self.peer_closed = true;
                self.o.borrow_mut().ev(json!({"e":"eof"}));
                // dropping a clone of the tap signals EOF to the endpoint; self.tap still reads
                drop(self.tap.clone());
            }
            "rerr" => {
                self.flush_in(0).await;
                self.o.borrow_mut().ev(json!({"e":"eof"}));
                self.peer_closed = true;
                self.tap.read_error(std::io::Error::other("x"));
            }
            "op" if c["skip"] == true => {}
            "op" => self.op(c),
            "cancel" => {
                let id = c["op"].as_i64().unwrap();
                if let Some(s) = self.ops.get(&id) {
                    let f = s.borrow_mut().take();
                    if f.is_some() {
                        self.o.borrow_mut().ev(json!({"e":"cancel","op":id}));
                        drop(f);
                    }
                }
            }
            "ctlmode" => {
                let mut o = self.o.borrow_mut();
                o.ctl_mode.insert(c["k"].as_str().unwrap().into(), c["m"].as_str().unwrap().into());
            }
            "msgmode" => {
                let mut o = self.o.borrow_mut();
                o.msg_mode.insert(c["k"].as_str().unwrap().into(), c["m"].as_str().unwrap().into());
            }
            "svcrdy" => {
                let (k, m) = (c["k"].as_str().unwrap(), c["m"].as_str().unwrap());
                let ws = {
                    let mut o = self.o.borrow_mut();
                    if m != "ok" || o.svc_rdy.get(k).is_some_and(|m| m == "hold") {
                        o.ev(json!({"e":"svcrdy","k":k,"m":m}));
                        o.svc_rdy.insert(k.into(), m.into());
                    }
                    std::mem::take(&mut o.svc_wak)
                };
                ws.into_iter().for_each(|w| w.wake());
            }
            "hndrdy" => {
                let m = c["m"].as_str().unwrap();
                let ws = {
                    let mut o = self.o.borrow_mut();
                    o.ev(json!({"e":"hnd","k":"rdy","m":m}));
                    o.hnd_rdy = m.into();
                    o.wake_rdy()
                };
                ws.into_iter().for_each(|w| w.wake());
            }
            "hndmode" => self.o.borrow_mut().hnd_mode = c["m"].as_str().unwrap().into(),
            "hndnewmode" => self.o.borrow_mut().hnd_new_mode = c["m"].as_str().unwrap().into(),
            "ctlgo" | "msggo" | "hndgo" => {
                let i = c["i"].as_u64().unwrap_or(0) as usize;
                let m = c["m"].as_str().unwrap_or("ok").to_string();
                let mut o = self.o.borrow_mut();
                let q = match c["c"].as_str().unwrap() {
                    "ctlgo" => &mut o.ctl_wait,
                    "msggo" => &mut o.msg_wait,
                    _ => &mut o.hnd_wait,
                };
                if i < q.len() {
                    let (_, tx) = q.remove(i).unwrap();
                    drop(o);
                    let _ = tx.send(m);
                }
            }
            "ctlall" => {
                // answer everything that waits, in the order the events were delivered
                let q: Vec<_> = self.o.borrow_mut().ctl_wait.drain(..).collect();
                for (n, _) in &q {
                    self.o.borrow_mut().ev(json!({"e":"ctlr","n":n,"r":"ok","er":"-","all":true}));
                }
                for (_, tx) in q {
                    let _ = tx.send("okall".into());
                }
            }
            "yield" => {
                for _ in 0..c["n"].as_u64().unwrap_or(1) {
                    tokio::task::yield_now().await;
                    self.drain();
                }
            }
            "sleep" => {
                tokio::time::sleep(std::time::Duration::from_millis(c["ms"].as_u64().unwrap_or(1))).await;
                self.drain();
            }
            "q" => {}
            x => panic!("unknown command {x}"),
        }
        if !c["nq"].as_bool().unwrap_or(false) && !c["hold"].as_bool().unwrap_or(false) {
            self.quiesce().await;
        }
    }

    /// Application operations of specification-generated schedules name sessions by order of begin
    /// ("sx") and links by [name, role, instance] ("lx"): find the objects the application holds.
    fn resolve_app(&mut self, mut c: J) -> J {
        if c["c"] != "op" {
            return c;
        }
        let Some(k) = c["sx"].as_u64() else { return c };
        let Some(ps) = self.peer.ss.get(k as usize) else { return c };
        let Some(ech) = ps.ech else { return c };
        // the application uses a name again once its last link of that name is gone
        if c["k"] == "att" {
            let key = (k, c["role"].as_str().unwrap_or("").to_string(), c["name"].as_str().unwrap_or("").to_string());
            let busy = ps.links.iter().any(|l| l.name == key.2 && l.role == key.1 && !(l.eatt && l.edet && l.mdet));
            let pend = self.atts.iter().any(|(id, x, fresh)| *x == key && (*fresh || self.ops.get(id).is_some_and(|s| s.borrow().is_some())));
            if busy || pend {
                c["skip"] = json!(true);
                return c;
            }
            self.atts.push((c["id"].as_i64().unwrap_or(0), key, true));
        }
        let o = self.o.borrow();
        let b = o.sessions.iter().filter(|(_, s)| i64::from(s.local_channel_id()) == ech).map(|(u, _)| *u).max();
        if let (Some(u), true) = (b, c["lx"].is_null()) {
            c["s"] = json!(u);
        }
        if let Some(a) = c["lx"].as_array() {
            let name = a[0].as_str().unwrap_or("");
            let role = a[1].as_str().unwrap_or("");
            let it: Vec<_> = ps.links.iter().filter(|l| l.name == name && l.role == role && l.eatt).collect();
            let l = match a.get(2).and_then(|x| x.as_u64()) {
                Some(n) => it.get(n as usize).copied(),
                None => it.last().copied(),
            };
            if let Some(eh) = l.and_then(|l| l.eh) {
                let u = o
                    .links
                    .iter()
                    .filter(|(_, x)| match x {
                        LinkObj::S(x) => role == "S" && i64::from(x.id()) == eh && i64::from(x.session().local_channel_id()) == ech,
                        LinkObj::R(x) => role == "R" && i64::from(x.handle()) == eh && i64::from(x.session().local_channel_id()) == ech,
                    })
                    .map(|(u, _)| *u)
                    .max();
                if let Some(u) = u {
                    c["ln"] = json!(u);
                }
            }
        }
        c
    }

    async fn flush_in(&mut self, split: usize) {
        if self.held.is_empty() {
            return;
        }
        let evs = std::mem::take(&mut self.held_ev);
        for e in evs {
            self.o.borrow_mut().ev(e);
        }
        let b = std::mem::take(&mut self.held);
        if split > 0 && split < b.len() {
            self.tap.write(&b[..split]);
            for _ in 0..5 {
                tokio::task::yield_now().await;
                self.drain();
            }
            self.tap.write(&b[split..]);
        } else {
            self.tap.write(b);
        }
    }

    pub fn new_op_id(&mut self) -> i64 {
        self.next_op += 1;
        self.next_op
    }

    fn op(&mut self, c: &J) {
        let k = c["k"].as_str().unwrap_or("").to_string();
        let id = match c["id"].as_i64() {
            Some(i) => {
                self.next_op = self.next_op.max(i);
                i
            }
            None => self.new_op_id(),
        };
        let o = self.o.clone();
        let (snd, rcv, sess, conn);
        {
            let b = o.borrow();
            let ln = c["ln"].as_i64().unwrap_or(-1);
            snd = match b.links.get(&ln) {
                Some(LinkObj::S(l)) => Some(l.clone()),
                _ => None,
            };
            rcv = match b.links.get(&ln) {
                Some(LinkObj::R(l)) => Some(l.clone()),
                _ => None,
            };
            sess = b.sessions.get(&c["s"].as_i64().unwrap_or(-1)).cloned();
            conn = b.conn.clone();
        }
        let Some(conn) = conn else { return };
        // call event
        let mut ev = json!({"e":"call","op":id,"k":k});
        for f in ["ln", "s", "d", "role", "name", "state", "n", "st", "fmt", "tag", "body", "err", "h", "addr", "mms", "idc"] {
            if !c[f].is_null() {
                ev[f] = c[f].clone();
            }
        }
        // quantities are logged as the frames show them
        if let Some(x) = c["mms"].as_u64() {
            ev["mms"] = json!(qty(x));
        }
        macro_rules! def { ($($f:literal : $v:expr),*) => { $( if ev[$f].is_null() { ev[$f] = json!($v); } )* } }
        let errj = |e: PE| {
            let (x, c) = pe_js(&e);
            json!({"r":"err","x":x,"c":c})
        };
        let unit = move |r: Result<(), PE>| match r {
            Ok(()) => json!({"r":"ok","x":"","c":""}),
            Err(e) => {
                let (x, c) = pe_js(&e);
                json!({"r":"err","x":x,"c":c})
            }
        };
        match k.as_str() {
            "begin" => {
                o.borrow_mut().ev(ev);
                let f = conn.open_session();
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        match f.attach().await {
                            Ok(s) => {
                                let i = o.borrow_mut().sess_info(&s).1;
                                merge(json!({"r":"ok","x":"","c":""}), &i)
                            }
                            Err(e) => errj(e),
                        }
                    }),
                );
            }
            "getsess" => {
                // look up a session by local channel id
                let h = c["h"].as_u64().unwrap_or(0) as u16;
                let s = conn.get_session_by_local_id(h);
                o.borrow_mut().ev(ev);
                let v = match s {
                    Some(s) => {
                        let i = o.borrow_mut().sess_info(&s).1;
                        merge(json!({"r":"ok","x":"","c":""}), &i)
                    }
                    None => json!({"r":"none","x":"","c":""}),
                };
                self.spawn_op(id, &k, Box::pin(async move { v }));
            }
            "att" => {
                let Some(s) = sess else { return };
                def!("mms": -1, "idc": -1);
                let name = c["name"].as_str().unwrap_or("l").to_string();
                let addr = c["addr"].as_str().unwrap_or("a").to_string();
                o.borrow_mut().ev(ev);
                let mms = c["mms"].as_i64();
                let idc = c["idc"].as_i64();
                if c["role"] == "S" {
                    let mut b = s.build_sender_link(name, addr);
                    if let Some(m) = mms {
                        b = b.max_message_size(m as u64);
                    }
                    if let Some(i) = idc {
                        b = b.with_frame(|f| *f.initial_delivery_count_mut() = Some(i as u32));
                    }
                    self.spawn_op(
                        id,
                        &k,
                        Box::pin(async move {
                            match b.attach().await {
                                Ok(l) => {
                                    let i = o.borrow_mut().snd_info(&l);
                                    merge(json!({"r":"ok","x":"","c":""}), &i)
                                }
                                Err(e) => errj(e),
                            }
                        }),
                    );
                } else {
                    let mut b = s.build_receiver_link(name, addr);
                    if let Some(m) = mms {
                        b = b.max_message_size(m as u64);
                    }
                    self.spawn_op(
                        id,
                        &k,
                        Box::pin(async move {
                            match b.attach().await {
                                Ok(l) => {
                                    let i = o.borrow_mut().rcv_info(&l);
                                    merge(json!({"r":"ok","x":"","c":""}), &i)
                                }
                                Err(e) => errj(e),
                            }
                        }),
                    );
                }
            }
            "send" => {
                let Some(l) = snd else { return };
                let body = unrle(&c["body"]);
                let blen = body.len();
                let mut t = l.transfer(Bytes::from(body));
                def!("st": false, "fmt": -1);
                if c["tag"].is_array() {
                    let tag = unrle(&c["tag"]);
                    ev["tag"] = json!(wire::hex(&tag));
                    t = t.tag(Bytes::from(tag));
                } else {
                    ev["tag"] = json!("-");
                }
                ev["blen"] = json!(blen);
                if c["st"].as_bool() == Some(true) {
                    t = t.settled();
                }
                if let Some(f) = c["fmt"].as_i64() {
                    if f >= 0 {
                        t = t.format(f as u32);
                    }
                }
                o.borrow_mut().ev(ev);
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        match t.send().await {
                            Ok(d) => {
                                let v = json!({"r":"ok","x":"","c":"","did":sid(d.id()),"tag":wire::hex(d.tag())});
                                o.borrow_mut().dlv.insert(id, Rc::new(d));
                                v
                            }
                            Err(e) => errj(e),
                        }
                    }),
                );
            }
            "ready" => {
                let Some(l) = snd else { return };
                o.borrow_mut().ev(ev);
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move { json!({"r": if l.ready().await {"ok"} else {"closed"},"x":"","c":""}) }),
                );
            }
            "oncredit" => {
                let Some(l) = snd else { return };
                o.borrow_mut().ev(ev);
                let wt = l.on_credit_update();
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        wt.await;
                        json!({"r":"ok","x":"","c":""})
                    }),
                );
            }
            "onclosel" => {
                let Some(l) = snd else { return };
                o.borrow_mut().ev(ev);
                let wt = l.on_close();
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        wt.await;
                        json!({"r":"ok","x":"","c":""})
                    }),
                );
            }
            "onclosec" => {
                o.borrow_mut().ev(ev);
                let wt = conn.on_close();
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        wt.await;
                        json!({"r":"ok","x":"","c":""})
                    }),
                );
            }
            "setmax" => {
                o.borrow_mut().ev(ev);
                let n = c["n"].as_i64().unwrap_or(0);
                if let Some(l) = snd {
                    l.set_max_message_size(n as u32);
                } else if let Some(l) = rcv {
                    l.set_max_message_size(n as u64);
                }
                self.spawn_op(id, &k, Box::pin(async { json!({"r":"ok","x":"","c":""}) }));
            }
            "credit" => {
                let Some(l) = rcv else { return };
                o.borrow_mut().ev(ev);
                let n = c["n"].as_i64().unwrap_or(0) as u32;
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        l.set_link_credit(n);
                        json!({"r":"ok","x":"","c":""})
                    }),
                );
            }
            "recv" | "getdel" => {
                let Some(l) = rcv else { return };
                o.borrow_mut().ev(ev);
                let get = k == "getdel";
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        let r = if get { l.get_delivery().map(Ok) } else { l.recv().await };
                        match r {
                            None => json!({"r":"none","x":"","c":""}),
                            Some(Err(e)) => errj(e),
                            Some(Ok((d, t))) => {
                                let (body, blen) = tr_body(&t);
                                let v = json!({"r":"ok","x":"","c":"","did":sid(d.id()),"tag":wire::hex(d.tag()),"body":body,"blen":blen,
                                    "st": t.settled().unwrap_or(false), "fmt": t.message_format().map(|x| qty(x as u64)).unwrap_or(-1),
                                    "tdid": t.delivery_id().map(sid).unwrap_or(NONE)});
                                o.borrow_mut().dlv.insert(id, Rc::new(d));
                                v
                            }
                        }
                    }),
                );
            }
            "hasdel" => {
                let Some(l) = rcv else { return };
                o.borrow_mut().ev(ev);
                let r = l.has_deliveries();
                self.spawn_op(id, &k, Box::pin(async move { json!({"r": if r {"yes"} else {"no"},"x":"","c":""}) }));
            }
            "wait" | "rwait" => {
                let d = c["d"].as_i64().unwrap();
                let Some(dl) = o.borrow().dlv.get(&d).cloned() else { return };
                o.borrow_mut().ev(ev);
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        let r = dl.wait().await;
                        let rs = dl.is_remote_settled();
                        drop(dl);
                        match r {
                            Ok(s) => json!({"r":"ok","x":"","c":"","rs":rs,"state": s.map(|s| st_js(&s)).unwrap_or_else(|| "none".into())}),
                            Err(e) => merge(json!({"rs":rs,"state":""}), &errj(e)),
                        }
                    }),
                );
            }
            "rstate" | "rpeek" => {
                let d = c["d"].as_i64().unwrap();
                let v = match o.borrow().dlv.get(&d) {
                    Some(d) => d.remote_state().map(|s| st_js(&s)).unwrap_or_else(|| "none".into()),
                    None => return,
                };
                o.borrow_mut().ev(ev);
                self.spawn_op(id, &k, Box::pin(async move { json!({"r":"ok","x":"","c":"","state":v}) }));
            }
            "settle" | "upd" => {
                let d = c["d"].as_i64().unwrap();
                if !o.borrow().dlv.get(&d).is_some_and(|d| Rc::strong_count(d) == 1) {
                    return;
                }
                o.borrow_mut().ev(ev);
                let st = mk_state(c["state"].as_str().unwrap_or("acc"));
                let up = k == "upd";
                let mut dl = o.borrow_mut().dlv.remove(&d).unwrap();
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        if let Some(dl) = Rc::get_mut(&mut dl) {
                            if up { dl.update_state(st) } else { dl.settle(st) }
                        }
                        o.borrow_mut().dlv.insert(d, dl);
                        json!({"r":"ok","x":"","c":""})
                    }),
                );
            }
            "drop" => {
                let d = c["d"].as_i64().unwrap();
                if !o.borrow().dlv.get(&d).is_some_and(|d| Rc::strong_count(d) == 1) {
                    return;
                }
                let dl = o.borrow_mut().dlv.remove(&d).unwrap();
                o.borrow_mut().ev(ev);
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        drop(dl);
                        json!({"r":"ok","x":"","c":""})
                    }),
                );
            }
            "closel" => {
                if snd.is_none() && rcv.is_none() {
                    return;
                }
                def!("err": "");
                o.borrow_mut().ev(ev);
                let e = c["err"].as_str().map(mk_err);
                if let Some(l) = snd {
                    self.spawn_op(
                        id,
                        &k,
                        Box::pin(async move {
                            unit(match e {
                                Some(e) => l.close_with_error(e).await,
                                None => l.close().await,
                            })
                        }),
                    );
                } else if let Some(l) = rcv {
                    self.spawn_op(
                        id,
                        &k,
                        Box::pin(async move {
                            unit(match e {
                                Some(e) => l.close_with_error(e).await,
                                None => l.close().await,
                            })
                        }),
                    );
                }
            }
            "detach" => {
                // session-level detach by local handle
                let Some(s) = sess else { return };
                def!("err": "");
                o.borrow_mut().ev(ev);
                let e = c["err"].as_str().map(mk_err);
                let h = c["h"].as_u64().unwrap_or(0) as u32;
                let r = c["role"] == "R";
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        unit(if r { s.detach_receiver_link(h, e).await } else { s.detach_sender_link(h, e).await })
                    }),
                );
            }
            "end" => {
                let Some(s) = sess else { return };
                o.borrow_mut().ev(ev);
                self.spawn_op(id, &k, Box::pin(async move { unit(s.end().await) }));
            }
            "close" => {
                def!("err": "");
                o.borrow_mut().ev(ev);
                let e = c["err"].as_str().map(mk_err);
                self.spawn_op(
                    id,
                    &k,
                    Box::pin(async move {
                        unit(match e {
                            Some(e) => conn.close_with_error(e).await,
                            None => conn.close().await,
                        })
                    }),
                );
            }
            "force" => {
                o.borrow_mut().ev(ev);
                conn.force_close();
                self.spawn_op(id, &k, Box::pin(async { json!({"r":"ok","x":"","c":""}) }));
            }
            "look" => {
                // link lookups by name / handle
                let Some(s) = sess else { return };
                let by = c["by"].as_str().unwrap_or("name");
                ev["by"] = json!(by);
                def!("h": -1, "name": "");
                o.borrow_mut().ev(ev);
                let h = c["h"].as_u64().unwrap_or(0) as u32;
                let mut b = o.borrow_mut();
                let r = match by {
                    "name" => s.get_sender_link(c["name"].as_str().unwrap_or("")).cloned().map(|l| b.snd_uid(&l)),
                    "slh" => s.get_sender_link_by_local_handle(h).cloned().map(|l| b.snd_uid(&l)),
                    "srh" => s.get_sender_link_by_remote_handle(h).cloned().map(|l| b.snd_uid(&l)),
                    "rlh" => s.get_receiver_link_by_local_handle(h).cloned().map(|l| b.rcv_uid(&l)),
                    _ => s.get_receiver_link_by_remote_handle(h).cloned().map(|l| b.rcv_uid(&l)),
                };
                drop(b);
                self.spawn_op(id, &k, Box::pin(async move { json!({"r":"ok","x":"","c":"","ln":r.unwrap_or(-1)}) }));
            }
            x => panic!("unknown op {x}"),
        }
    }

    /// Release everything at the end of a scenario without logging further events
    pub async fn finish(mut self) -> (Vec<Ev>, Vec<J>) {
        self.note_panics();
        let log = std::mem::take(&mut self.o.borrow_mut().log);
        let cmds = std::mem::take(&mut self.cmds);
        for s in self.ops.values() {
            let f = s.borrow_mut().take();
            drop(f);
        }
        let (c, d, l, s) = {
            let mut o = self.o.borrow_mut();
            (
                o.conn.take(),
                std::mem::take(&mut o.dlv),
                std::mem::take(&mut o.links),
                std::mem::take(&mut o.sessions),
            )
        };
        if let Some(c) = c {
            c.force_close();
        }
        drop(d);
        drop(l);
        drop(s);
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        PANICS.with(|p| p.borrow_mut().clear());
        (log, cmds)
    }
}

#[allow(dead_code)]
fn _unused(_: Pipeline<CtlSvc>) {}
