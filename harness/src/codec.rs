//! Drives the real encoder and decoder and records what they do, for validation against spec/Codec.tla.
use crate::gen_::Rng;
use crate::wire::{self, Form, Val};
use chrono::{DateTime, Utc};
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::*;
use ntex_amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, Message, ProtocolIdCodec, SaslFrame};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::{Decoder, Encoder};
use ordered_float::OrderedFloat;
use serde_json::{Value as J, json};
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    pub t: String,
    pub b: Vec<u8>,
    pub c: Vec<N>,
}
pub fn n(t: &str, b: &[u8], c: Vec<N>) -> N {
    N { t: t.into(), b: b.to_vec(), c }
}
impl N {
    pub fn j(&self) -> J {
        json!({"t": self.t, "b": self.b, "c": self.c.iter().map(|x| x.j()).collect::<Vec<_>>()})
    }
    pub fn from(j: &J) -> N {
        N {
            t: j["t"].as_str().unwrap().into(),
            b: bytes_of(&j["b"]),
            c: j["c"].as_array().map(|a| a.iter().map(N::from).collect()).unwrap_or_default(),
        }
    }
}
pub fn bytes_of(j: &J) -> Vec<u8> {
    j.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

pub struct G {
    pub r: Rng,
    pub depth: usize,
}
impl G {
    fn p(&mut self, x: usize) -> bool {
        self.r.p(x)
    }
    fn len(&mut self) -> usize {
        match self.r.below(40) {
            0 => 0,
            1 => 254 + self.r.below(4),
            2 => 236 + self.r.below(24),
            3 => 100 + self.r.below(60),
            _ => self.r.below(7),
        }
    }
    fn bytes(&mut self) -> Vec<u8> {
        let l = self.len();
        (0..l).map(|_| self.r.next() as u8).collect()
    }
    fn text(&mut self) -> String {
        let l = self.len();
        let mut s = String::new();
        let ascii = self.p(70);
        while s.len() < l {
            let c = if ascii { (b'a' + self.r.below(26) as u8) as char } else { char::gen_(self) };
            s.push(c);
        }
        s
    }
    fn sym(&mut self) -> String {
        let l = self.len();
        (0..l).map(|_| (33 + self.r.below(90) as u8) as char).collect()
    }
    fn edge(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.r.below(9) {
            0 => 0,
            1 => 1,
            2 => 127 + self.r.below(3) as u64,
            3 => 254 + self.r.below(4) as u64,
            4 => m,
            5 => (m >> 1) + self.r.below(2) as u64,
            6 => m.wrapping_sub(126 + self.r.below(4) as u64),
            7 => self.r.below(256) as u64,
            _ => self.r.next(),
        };
        v & m
    }
}

/// values: random generation and description as a node
pub trait Cd: Sized {
    fn gen_(g: &mut G) -> Self;
    fn node(&self) -> N;
}
macro_rules! num {
    ($($t:ty, $n:expr, $bits:expr;)*) => {$(
        impl Cd for $t {
            fn gen_(g: &mut G) -> Self { g.edge($bits) as $t }
            fn node(&self) -> N { n($n, &self.to_be_bytes(), vec![]) }
        }
    )*};
}
num! {u8, "ubyte", 8; u16, "ushort", 16; u32, "uint", 32; u64, "ulong", 64; i8, "byte", 8; i16, "short", 16; i32, "int", 32; i64, "long", 64;}
impl Cd for f32 {
    fn gen_(g: &mut G) -> Self {
        f32::from_bits(g.edge(32) as u32)
    }
    fn node(&self) -> N {
        n("float", &self.to_bits().to_be_bytes(), vec![])
    }
}
impl Cd for f64 {
    fn gen_(g: &mut G) -> Self {
        f64::from_bits(g.edge(64))
    }
    fn node(&self) -> N {
        n("double", &self.to_bits().to_be_bytes(), vec![])
    }
}
impl Cd for bool {
    fn gen_(g: &mut G) -> Self {
        g.p(50)
    }
    fn node(&self) -> N {
        n("bool", &[*self as u8], vec![])
    }
}
impl Cd for char {
    fn gen_(g: &mut G) -> Self {
        let v = match g.r.below(6) {
            0 => 0x7f + g.r.below(3) as u32,
            1 => 0x7ff + g.r.below(3) as u32,
            2 => 0xd7ff,
            3 => 0xffff + g.r.below(3) as u32,
            4 => 0x10ffff,
            _ => g.r.below(0x110000) as u32,
        };
        char::from_u32(v).unwrap_or('\u{e000}')
    }
    fn node(&self) -> N {
        n("char", &(*self as u32).to_be_bytes(), vec![])
    }
}
impl Cd for DateTime<Utc> {
    fn gen_(g: &mut G) -> Self {
        let ms = match g.r.below(5) {
            0 => 0,
            1 => -1,
            2 => -(g.r.below(1 << 40) as i64),
            _ => g.r.below(1 << 46) as i64,
        };
        DateTime::from_timestamp_millis(ms).unwrap()
    }
    fn node(&self) -> N {
        n("ts", &self.timestamp_millis().to_be_bytes(), vec![])
    }
}
impl Cd for Uuid {
    fn gen_(g: &mut G) -> Self {
        Uuid::from_u128(((g.r.next() as u128) << 64) | g.r.next() as u128)
    }
    fn node(&self) -> N {
        n("uuid", self.as_bytes(), vec![])
    }
}
impl Cd for Bytes {
    fn gen_(g: &mut G) -> Self {
        Bytes::from(g.bytes())
    }
    fn node(&self) -> N {
        n("bin", self, vec![])
    }
}
impl Cd for ByteString {
    fn gen_(g: &mut G) -> Self {
        ByteString::from(g.text())
    }
    fn node(&self) -> N {
        n("str", self.as_bytes(), vec![])
    }
}
impl Cd for Str {
    fn gen_(g: &mut G) -> Self {
        Str::from(g.text())
    }
    fn node(&self) -> N {
        n("str", self.as_bytes(), vec![])
    }
}
impl Cd for Symbol {
    fn gen_(g: &mut G) -> Self {
        Symbol::from(g.sym())
    }
    fn node(&self) -> N {
        n("sym", self.as_bytes(), vec![])
    }
}
impl<T: Cd> Cd for Option<T> {
    fn gen_(g: &mut G) -> Self {
        if g.p(45) { Some(T::gen_(g)) } else { None }
    }
    fn node(&self) -> N {
        self.as_ref().map_or(n("absent", &[], vec![]), |x| x.node())
    }
}
impl<T: Cd> Cd for Multiple<T> {
    fn gen_(g: &mut G) -> Self {
        let k = if g.p(40) { 1 } else { g.r.below(4) };
        Multiple((0..k).map(|_| T::gen_(g)).collect())
    }
    fn node(&self) -> N {
        n("multi", &[], self.0.iter().map(|x| x.node()).collect())
    }
}
impl<T: Cd> Cd for Vec<T> {
    fn gen_(g: &mut G) -> Self {
        let k = if g.p(5) { 250 + g.r.below(10) } else { g.r.below(5) };
        (0..k).map(|_| T::gen_(g)).collect()
    }
    fn node(&self) -> N {
        n("multi", &[], self.iter().map(|x| x.node()).collect())
    }
}
impl Cd for VecSymbolMap {
    fn gen_(g: &mut G) -> Self {
        let m: Fields = Cd::gen_(g);
        VecSymbolMap(m.into_iter().collect())
    }
    fn node(&self) -> N {
        n("map", &[], self.0.iter().flat_map(|(k, v)| [k.node(), v.node()]).collect())
    }
}
impl Cd for VecStringMap {
    fn gen_(g: &mut G) -> Self {
        let m: StringVariantMap = Cd::gen_(g);
        VecStringMap(m.into_iter().collect())
    }
    fn node(&self) -> N {
        n("map", &[], self.0.iter().flat_map(|(k, v)| [k.node(), v.node()]).collect())
    }
}
macro_rules! hmap {
    ($($t:ty, $key:expr;)*) => {$(
        impl Cd for $t {
            fn gen_(g: &mut G) -> Self {
                let k = g.r.below(4);
                let mut m: Self = (0..k).map(|_| (Cd::gen_(g), Cd::gen_(g))).collect();
                // contents about as long as the compact form can hold
                if g.p(8) {
                    let want = 250 + g.r.below(9);
                    let size = |m: &Self| m.iter().map(|(k, v)| k.encoded_size() + v.encoded_size()).sum::<usize>();
                    m.remove(&$key);
                    if size(&m) + 5 > want {
                        m.clear();
                    }
                    let l = want - size(&m) - 5;
                    m.insert($key, Variant::Binary(Bytes::from(vec![7u8; l])));
                }
                m
            }
            fn node(&self) -> N {
                n("map", &[], self.iter().flat_map(|(k, v)| [k.node(), v.node()]).collect())
            }
        }
    )*};
}
hmap! {Map, Variant::Symbol(Symbol::from("p")); Fields, Symbol::from("p"); StringVariantMap, Str::from("p");}
impl Cd for FilterSet {
    fn gen_(g: &mut G) -> Self {
        let k = g.r.below(4);
        (0..k).map(|_| (Cd::gen_(g), Cd::gen_(g))).collect()
    }
    fn node(&self) -> N {
        let nul = || n("null", &[], vec![]);
        n("map", &[], self.iter().flat_map(|(k, v)| [k.node(), v.as_ref().map_or_else(nul, |x| x.node())]).collect())
    }
}
impl Cd for Descriptor {
    fn gen_(g: &mut G) -> Self {
        if g.p(60) { Descriptor::Ulong(u64::gen_(g)) } else { Descriptor::Symbol(Symbol::gen_(g)) }
    }
    fn node(&self) -> N {
        match self {
            Descriptor::Ulong(x) => x.node(),
            Descriptor::Symbol(x) => x.node(),
        }
    }
}
impl Cd for List {
    fn gen_(g: &mut G) -> Self {
        let k = if g.depth > 3 { 0 } else if g.p(3) { 120 + g.r.below(16) } else { g.r.below(4) };
        if k > 100 {
            return List((0..k).map(|_| Variant::Ubyte(u8::gen_(g))).collect());
        }
        let mut v: Vec<Variant> = (0..k).map(|_| Variant::gen_(g)).collect();
        if g.p(8) && g.depth < 3 {
            let want = 250 + g.r.below(9);
            let mut size: usize = v.iter().map(|x| x.encoded_size()).sum();
            if size + 2 > want {
                v.clear();
                size = 0;
            }
            v.push(Variant::Binary(Bytes::from(vec![7u8; (want - size - 2).min(255)])));
        }
        List(v)
    }
    fn node(&self) -> N {
        n("list", &[], self.0.iter().map(|x| x.node()).collect())
    }
}
fn arr<T: Cd + ntex_amqp_codec::ArrayEncode>(g: &mut G) -> Array {
    let v: Vec<T> = Cd::gen_(g);
    Array::from(v)
}
impl Cd for Array {
    fn gen_(g: &mut G) -> Self {
        match g.r.below(16) {
            0 => arr::<bool>(g),
            1 => arr::<u8>(g),
            2 => arr::<u16>(g),
            3 => arr::<u32>(g),
            4 => arr::<u64>(g),
            5 => arr::<i8>(g),
            6 => arr::<i16>(g),
            7 => arr::<i32>(g),
            8 => arr::<i64>(g),
            9 => arr::<f32>(g),
            10 => arr::<f64>(g),
            11 => arr::<char>(g),
            12 => arr::<Uuid>(g),
            13 => arr::<Bytes>(g),
            14 => arr::<ByteString>(g),
            _ => arr::<Symbol>(g),
        }
    }
    fn node(&self) -> N {
        let bad = n("bad", &[], vec![]);
        match self.decode::<Variant>() {
            Ok(v) => {
                let c = self.element_constructor();
                let mut e: Vec<N> = v.iter().map(|x| x.node()).collect();
                match c {
                    Constructor::FormatCode(f) => n("array", &[*f], e),
                    Constructor::Described { descriptor, format_code } => {
                        e.insert(0, descriptor.node());
                        n("darray", &[*format_code], e)
                    }
                }
            }
            Err(_) => bad,
        }
    }
}
impl Cd for Variant {
    fn gen_(g: &mut G) -> Self {
        g.depth += 1;
        let k = if g.depth > 4 { 21 } else { 30 };
        let v = match g.r.below(k) {
            0 => Variant::Null,
            1 => Variant::Boolean(Cd::gen_(g)),
            2 => Variant::Ubyte(Cd::gen_(g)),
            3 => Variant::Ushort(Cd::gen_(g)),
            4 => Variant::Uint(Cd::gen_(g)),
            5 => Variant::Ulong(Cd::gen_(g)),
            6 => Variant::Byte(Cd::gen_(g)),
            7 => Variant::Short(Cd::gen_(g)),
            8 => Variant::Int(Cd::gen_(g)),
            9 => Variant::Long(Cd::gen_(g)),
            10 => Variant::Float(OrderedFloat(Cd::gen_(g))),
            11 => Variant::Double(OrderedFloat(Cd::gen_(g))),
            12 => Variant::Decimal32(u32::gen_(g).to_be_bytes()),
            13 => Variant::Decimal64(u64::gen_(g).to_be_bytes()),
            14 => Variant::Decimal128(*Uuid::gen_(g).as_bytes()),
            15 => Variant::Char(Cd::gen_(g)),
            16 => Variant::Timestamp(Cd::gen_(g)),
            17 => Variant::Uuid(Cd::gen_(g)),
            18 => Variant::Binary(Cd::gen_(g)),
            19 => Variant::String(Cd::gen_(g)),
            20 => Variant::Symbol(Cd::gen_(g)),
            21..24 => Variant::List(Cd::gen_(g)),
            24 | 25 => Variant::Map(VariantMap::new(Cd::gen_(g))),
            26 | 27 => Variant::Array(Cd::gen_(g)),
            _ => {
                let d = Descriptor::gen_(g);
                match Variant::gen_(g) {
                    v @ (Variant::List(_) | Variant::Map(_) | Variant::Array(_)) => Variant::DescribedCompound(DescribedCompound::create(d, v)),
                    v => Variant::Described((d, Box::new(v))),
                }
            }
        };
        g.depth -= 1;
        v
    }
    fn node(&self) -> N {
        match self {
            Variant::Null => n("null", &[], vec![]),
            Variant::Boolean(x) => x.node(),
            Variant::Ubyte(x) => x.node(),
            Variant::Ushort(x) => x.node(),
            Variant::Uint(x) => x.node(),
            Variant::Ulong(x) => x.node(),
            Variant::Byte(x) => x.node(),
            Variant::Short(x) => x.node(),
            Variant::Int(x) => x.node(),
            Variant::Long(x) => x.node(),
            Variant::Float(x) => x.0.node(),
            Variant::Double(x) => x.0.node(),
            Variant::Decimal32(x) => n("dec32", x, vec![]),
            Variant::Decimal64(x) => n("dec64", x, vec![]),
            Variant::Decimal128(x) => n("dec128", x, vec![]),
            Variant::Char(x) => x.node(),
            Variant::Timestamp(x) => x.node(),
            Variant::Uuid(x) => x.node(),
            Variant::Binary(x) => x.node(),
            Variant::String(x) => x.node(),
            Variant::Symbol(x) => x.node(),
            Variant::List(x) => x.node(),
            Variant::Map(x) => x.map.node(),
            Variant::Array(x) => x.node(),
            Variant::Described((d, v)) => n("desc", &[], vec![d.node(), v.node()]),
            Variant::DescribedCompound(d) => {
                n("desc", &[], vec![d.descriptor().node(), d.decode::<Variant>().map_or(n("bad", &[], vec![]), |x| x.node())])
            }
        }
    }
}
impl Cd for MessageId {
    fn gen_(g: &mut G) -> Self {
        match g.r.below(4) {
            0 => MessageId::Ulong(Cd::gen_(g)),
            1 => MessageId::Uuid(Cd::gen_(g)),
            2 => MessageId::Binary(Cd::gen_(g)),
            _ => MessageId::String(Cd::gen_(g)),
        }
    }
    fn node(&self) -> N {
        match self {
            MessageId::Ulong(x) => x.node(),
            MessageId::Uuid(x) => x.node(),
            MessageId::Binary(x) => x.node(),
            MessageId::String(x) => x.node(),
        }
    }
}
macro_rules! choice {
    ($($t:ident: $k:ident [$($v:ident = $x:expr),*];)*) => {$(
        impl Cd for $t {
            fn gen_(g: &mut G) -> Self {
                let all = [$($t::$v),*];
                all[g.r.below(all.len())].clone()
            }
            fn node(&self) -> N {
                match self { $($t::$v => $k($x)),* }
            }
        }
    )*};
}
fn bo(x: bool) -> N {
    x.node()
}
fn ub(x: u8) -> N {
    x.node()
}
fn ui(x: u32) -> N {
    x.node()
}
fn sy(x: &str) -> N {
    n("sym", x.as_bytes(), vec![])
}
choice! {
    Role: bo [Sender = false, Receiver = true];
    SenderSettleMode: ub [Unsettled = 0, Settled = 1, Mixed = 2];
    ReceiverSettleMode: ub [First = 0, Second = 1];
    SaslCode: ub [Ok = 0, Auth = 1, Sys = 2, SysPerm = 3, SysTemp = 4];
    TerminusDurability: ui [None = 0, Configuration = 1, UnsettledState = 2];
    TerminusExpiryPolicy: sy [LinkDetach = "link-detach", SessionEnd = "session-end", ConnectionClose = "connection-close", Never = "never"];
    AmqpError: sy [InternalError = "amqp:internal-error", NotFound = "amqp:not-found", UnauthorizedAccess = "amqp:unauthorized-access",
        DecodeError = "amqp:decode-error", ResourceLimitExceeded = "amqp:resource-limit-exceeded", NotAllowed = "amqp:not-allowed",
        InvalidField = "amqp:invalid-field", NotImplemented = "amqp:not-implemented", ResourceLocked = "amqp:resource-locked",
        PreconditionFailed = "amqp:precondition-failed", ResourceDeleted = "amqp:resource-deleted", IllegalState = "amqp:illegal-state",
        FrameSizeTooSmall = "amqp:frame-size-too-small"];
    ConnectionError: sy [ConnectionForced = "amqp:connection:forced", FramingError = "amqp:connection:framing-error", Redirect = "amqp:connection:redirect"];
    SessionError: sy [WindowViolation = "amqp:session:window-violation", ErrantLink = "amqp:session:errant-link",
        HandleInUse = "amqp:session:handle-in-use", UnattachedHandle = "amqp:session:unattached-handle"];
    LinkError: sy [DetachForced = "amqp:link:detach-forced", TransferLimitExceeded = "amqp:link:transfer-limit-exceeded",
        MessageSizeExceeded = "amqp:link:message-size-exceeded", Redirect = "amqp:link:redirect", Stolen = "amqp:link:stolen"];
}
impl Cd for ErrorCondition {
    fn gen_(g: &mut G) -> Self {
        match g.r.below(5) {
            0 => ErrorCondition::AmqpError(Cd::gen_(g)),
            1 => ErrorCondition::ConnectionError(Cd::gen_(g)),
            2 => ErrorCondition::SessionError(Cd::gen_(g)),
            3 => ErrorCondition::LinkError(Cd::gen_(g)),
            _ => ErrorCondition::Custom(Cd::gen_(g)),
        }
    }
    fn node(&self) -> N {
        match self {
            ErrorCondition::AmqpError(x) => x.node(),
            ErrorCondition::ConnectionError(x) => x.node(),
            ErrorCondition::SessionError(x) => x.node(),
            ErrorCondition::LinkError(x) => x.node(),
            ErrorCondition::Custom(x) => x.node(),
        }
    }
}
impl Cd for DistributionMode {
    fn gen_(g: &mut G) -> Self {
        match g.r.below(3) {
            0 => DistributionMode::Move,
            1 => DistributionMode::Copy,
            _ => DistributionMode::Custom(Cd::gen_(g)),
        }
    }
    fn node(&self) -> N {
        match self {
            DistributionMode::Move => sy("move"),
            DistributionMode::Copy => sy("copy"),
            DistributionMode::Custom(x) => x.node(),
        }
    }
}
/// make the fields about as long as the compact form of their list can hold
fn pad<T: Encode>(x: &mut T, g: &mut G, set: impl Fn(&mut T, String)) {
    set(x, String::new());
    let s = x.encoded_size();
    let want = 250 + g.r.below(9);
    if s >= 6 && s - 6 <= want {
        set(x, "a".repeat((want + 6 - s).min(255)));
    }
}
fn fit(x: &mut dyn std::any::Any, g: &mut G) {
    if !g.p(6) {
        return;
    }
    if let Some(x) = x.downcast_mut::<Open>() {
        pad(x, g, |x, v| x.0.container_id = v.into());
    } else if let Some(x) = x.downcast_mut::<Attach>() {
        pad(x, g, |x, v| x.0.name = v.into());
    } else if let Some(x) = x.downcast_mut::<Transfer>() {
        if x.0.body.is_none() {
            pad(x, g, |x, v| x.0.delivery_tag = Some(Bytes::from(v.into_bytes())));
        }
    } else if let Some(x) = x.downcast_mut::<Error>() {
        pad(x, g, |x, v| x.0.description = Some(v.into()));
    } else if let Some(x) = x.downcast_mut::<Source>() {
        pad(x, g, |x, v| x.address = Some(v.into()));
    } else if let Some(x) = x.downcast_mut::<Target>() {
        pad(x, g, |x, v| x.address = Some(v.into()));
    } else if let Some(x) = x.downcast_mut::<SaslInit>() {
        pad(x, g, |x, v| x.hostname = Some(v.into()));
    } else if let Some(x) = x.downcast_mut::<Properties>() {
        pad(x, g, |x, v| x.subject = Some(v.into()));
    }
}
macro_rules! comp {
    ($($t:ident $code:expr, [$($f:ident),*];)*) => {$(
        impl Cd for $t {
            #[allow(unused_variables)]
            fn gen_(g: &mut G) -> Self {
                let mut x = $t { $($f: Cd::gen_(g)),* };
                fit(&mut x, g);
                x
            }
            fn node(&self) -> N { n("comp", &[$code], vec![$(self.$f.node()),*]) }
        }
    )*};
}
macro_rules! boxed {
    ($($t:ident $in:ident $code:expr, [$($f:ident),*];)*) => {$(
        impl Cd for $t {
            fn gen_(g: &mut G) -> Self {
                let mut x = $t(Box::new($in { $($f: Cd::gen_(g)),* }));
                fit(&mut x, g);
                x
            }
            fn node(&self) -> N { n("comp", &[$code], vec![$(self.0.$f.node()),*]) }
        }
    )*};
}
boxed! {
    Open OpenInner 16, [container_id, hostname, max_frame_size, channel_max, idle_time_out, outgoing_locales, incoming_locales,
        offered_capabilities, desired_capabilities, properties];
    Begin BeginInner 17, [remote_channel, next_outgoing_id, incoming_window, outgoing_window, handle_max, offered_capabilities,
        desired_capabilities, properties];
    Attach AttachInner 18, [name, handle, role, snd_settle_mode, rcv_settle_mode, source, target, unsettled, incomplete_unsettled,
        initial_delivery_count, max_message_size, offered_capabilities, desired_capabilities, properties];
    Flow FlowInner 19, [next_incoming_id, incoming_window, next_outgoing_id, outgoing_window, handle, delivery_count, link_credit,
        available, drain, echo, properties];
    Transfer TransferInner 20, [handle, delivery_id, delivery_tag, message_format, settled, more, rcv_settle_mode, state, resume,
        aborted, batchable, body];
    Disposition DispositionInner 21, [role, first, last, settled, state, batchable];
    Detach DetachInner 22, [handle, closed, error];
    Error ErrorInner 29, [condition, description, info];
}
comp! {
    End 23, [error];
    Close 24, [error];
    Received 35, [section_number, section_offset];
    Accepted 36, [];
    Rejected 37, [error];
    Released 38, [];
    Modified 39, [delivery_failed, undeliverable_here, message_annotations];
    Source 40, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, distribution_mode, filter,
        default_outcome, outcomes, capabilities];
    Target 41, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, capabilities];
    SaslMechanisms 64, [sasl_server_mechanisms];
    SaslInit 65, [mechanism, initial_response, hostname];
    SaslChallenge 66, [challenge];
    SaslResponse 67, [response];
    SaslOutcome 68, [code, additional_data];
    Header 112, [durable, priority, ttl, first_acquirer, delivery_count];
    Properties 115, [message_id, user_id, to, subject, reply_to, correlation_id, content_type, content_encoding, absolute_expiry_time,
        creation_time, group_id, group_sequence, reply_to_group_id];
}
macro_rules! sum {
    ($($t:ident [$($v:ident),*];)*) => {$(
        impl Cd for $t {
            fn gen_(g: &mut G) -> Self {
                let mut k = g.r.below([$(stringify!($v)),*].len());
                $(if k == 0 { return $t::$v(Cd::gen_(g)); } k = k.wrapping_sub(1);)*
                unreachable!("{k}")
            }
            fn node(&self) -> N {
                #[allow(unreachable_patterns)]
                match self { $($t::$v(x) => x.node(),)* _ => n("empty", &[], vec![]) }
            }
        }
    )*};
}
sum! {
    DeliveryState [Received, Accepted, Rejected, Released, Modified];
    Outcome [Accepted, Rejected, Released, Modified];
    SaslFrameBody [SaslMechanisms, SaslInit, SaslChallenge, SaslResponse, SaslOutcome];
    Frame [Open, Begin, Attach, Flow, Transfer, Disposition, Detach, End, Close];
}
fn raw<T: Encode>(x: &T) -> Vec<u8> {
    let mut b = BytesMut::with_capacity(64);
    x.encode(&mut b);
    b.to_vec()
}
impl Cd for TransferBody {
    fn gen_(g: &mut G) -> Self {
        if g.p(70) {
            let mut b = g.bytes();
            if b.is_empty() {
                b.push(1);
            }
            TransferBody::Data(b.into())
        } else {
            TransferBody::Message(Message::with_body(Bytes::gen_(g)))
        }
    }
    fn node(&self) -> N {
        n("body", &raw(self), vec![])
    }
}
impl Cd for Message {
    fn gen_(g: &mut G) -> Self {
        let mut m = match g.r.below(6) {
            0 => Message::default(),
            1 => Message::with_body(Cd::gen_(g)),
            2 => Message::with_messages((0..g.r.below(3)).map(|_| Cd::gen_(g)).collect()),
            3 => {
                let mut m = Message::default();
                m.0.body.sequence = (0..g.r.below(3)).map(|_| Cd::gen_(g)).collect();
                m
            }
            4 => {
                let mut m = Message::default();
                m.0.body.data = (0..g.r.below(4)).map(|_| Cd::gen_(g)).collect();
                m
            }
            _ => {
                let mut m = Message::default();
                let v: Variant = Cd::gen_(g);
                m.set_value(v);
                m
            }
        };
        if g.p(20) {
            m.0.header = Cd::gen_(g);
            m.0.delivery_annotations = Cd::gen_(g);
            m.0.message_annotations = Cd::gen_(g);
            m.0.properties = Cd::gen_(g);
            m.0.application_properties = Cd::gen_(g);
            m.0.footer = Cd::gen_(g);
        }
        // use of the mutators, with the size asked for in between
        for _ in 0..g.r.below(5) {
            if g.p(60) {
                let _ = m.encoded_size();
            }
            match g.r.below(10) {
                0 => {
                    m.set_header(Cd::gen_(g));
                }
                1 => {
                    m.properties_mut().subject = Cd::gen_(g);
                }
                2 => {
                    let p: Properties = Cd::gen_(g);
                    m.set_properties(|x| *x = p);
                }
                3 => {
                    let (k, v): (ByteString, Variant) = (Cd::gen_(g), Cd::gen_(g));
                    if m.app_property(&k).is_none() {
                        m.set_app_property(Str::from(k), v);
                    }
                }
                4 => {
                    let v: Variant = Cd::gen_(g);
                    if let Some(a) = m.app_properties_mut() {
                        if let Some(x) = a.first_mut() {
                            x.1 = v;
                        }
                    }
                }
                5 => {
                    let (k, v): (Symbol, Variant) = (Cd::gen_(g), Cd::gen_(g));
                    if m.message_annotation(k.as_str()).is_none() {
                        m.add_message_annotation(k, v);
                    }
                }
                6 => {
                    let v: Variant = Cd::gen_(g);
                    if let Some(a) = m.message_annotations_mut() {
                        if let Some(x) = a.first_mut() {
                            x.1 = v;
                        }
                    }
                }
                7 => {
                    let v: Variant = Cd::gen_(g);
                    if let Some(a) = m.delivery_annotations_mut() {
                        if let Some(x) = a.first_mut() {
                            x.1 = v;
                        }
                    }
                }
                8 => {
                    let b: Bytes = Cd::gen_(g);
                    if m.0.body.value.is_none() && m.0.body.sequence.is_empty() && m.0.body.messages.is_empty() {
                        m.body_mut().set_data(b);
                    }
                }
                _ => {
                    let b: Bytes = Cd::gen_(g);
                    if m.0.body.value.is_none() && m.0.body.sequence.is_empty() && m.0.body.messages.is_empty() {
                        m.set_body(|x| x.data.push(b));
                    }
                }
            }
        }
        m
    }
    fn node(&self) -> N {
        let m = &self.0;
        let mut d: Vec<N> = m.body.data.iter().map(|x| x.node()).collect();
        d.extend(m.body.messages.iter().map(|x| n("bin", &raw(x), vec![])));
        n(
            "msg",
            &[],
            vec![
                m.header.node(),
                m.delivery_annotations.node(),
                m.message_annotations.node(),
                m.properties.node(),
                m.application_properties.node(),
                n("datas", &[], d),
                n("seqs", &[], m.body.sequence.iter().map(|x| x.node()).collect()),
                m.body.value.node(),
                m.footer.node(),
            ],
        )
    }
}

// ------------------------------------------------------------------------------------------------
// nodes to wire forms chosen by the harness

fn name_of(code: u8) -> &'static str {
    match code {
        16 => "amqp:open:list",
        17 => "amqp:begin:list",
        18 => "amqp:attach:list",
        19 => "amqp:flow:list",
        20 => "amqp:transfer:list",
        21 => "amqp:disposition:list",
        22 => "amqp:detach:list",
        23 => "amqp:end:list",
        24 => "amqp:close:list",
        29 => "amqp:error:list",
        35 => "amqp:received:list",
        36 => "amqp:accepted:list",
        37 => "amqp:rejected:list",
        38 => "amqp:released:list",
        39 => "amqp:modified:list",
        40 => "amqp:source:list",
        41 => "amqp:target:list",
        64 => "amqp:sasl-mechanisms:list",
        65 => "amqp:sasl-init:list",
        66 => "amqp:sasl-challenge:list",
        67 => "amqp:sasl-response:list",
        68 => "amqp:sasl-outcome:list",
        112 => "amqp:header:list",
        113 => "amqp:delivery-annotations:map",
        114 => "amqp:message-annotations:map",
        115 => "amqp:properties:list",
        116 => "amqp:application-properties:map",
        117 => "amqp:data:binary",
        118 => "amqp:amqp-sequence:list",
        119 => "amqp:amqp-value:*",
        120 => "amqp:footer:map",
        _ => "?",
    }
}
fn descr(g: &mut G, code: u8) -> Val {
    if g.p(80) { Val::U64(code as u64) } else { Val::Sym(name_of(code).into()) }
}
/// how often fields are replaced by null, against the schema or not
pub fn to_val(x: &N, g: &mut G, noise: usize) -> Val {
    let b = &x.b;
    let u = |l: usize| -> u64 { b.iter().take(l).fold(0u64, |a, y| (a << 8) | *y as u64) };
    let c = |g: &mut G| -> Vec<Val> { x.c.iter().map(|y| to_val(y, g, noise)).collect() };
    match x.t.as_str() {
        "null" | "absent" => Val::Null,
        "bool" => Val::Bool(b[0] != 0),
        "ubyte" => Val::U8(b[0]),
        "ushort" => Val::U16(u(2) as u16),
        "uint" => Val::U32(u(4) as u32),
        "ulong" => Val::U64(u(8)),
        "byte" => Val::I8(b[0] as i8),
        "short" => Val::I16(u(2) as u16 as i16),
        "int" => Val::I32(u(4) as u32 as i32),
        "long" => Val::I64(u(8) as i64),
        "float" => Val::F32(u(4) as u32),
        "double" => Val::F64(u(8)),
        "dec32" => Val::D32(b[..].try_into().unwrap()),
        "dec64" => Val::D64(b[..].try_into().unwrap()),
        "dec128" => Val::D128(b[..].try_into().unwrap()),
        "char" => Val::Char(u(4) as u32),
        "ts" => Val::Ts(u(8) as i64),
        "uuid" => Val::Uuid(b[..].try_into().unwrap()),
        "bin" => Val::Bin(b.clone()),
        "str" => Val::Str(String::from_utf8(b.clone()).unwrap()),
        "sym" => Val::Sym(String::from_utf8(b.clone()).unwrap()),
        "list" => Val::List(c(g)),
        "map" => {
            let v = c(g);
            Val::Map(v.chunks(2).map(|k| (k[0].clone(), k[1].clone())).collect())
        }
        "array" => Val::Arr(c(g)),
        "multi" => {
            let v = c(g);
            if v.is_empty() {
                Val::Raw(if g.p(50) { vec![0xe0, 2, 0, 0xa3] } else { vec![0xf0, 0, 0, 0, 5, 0, 0, 0, 0, 0xb3] })
            } else if v.len() == 1 && g.p(50) {
                v[0].clone()
            } else {
                Val::Arr(v)
            }
        }
        "desc" => {
            let v = c(g);
            Val::Desc(Box::new(v[0].clone()), Box::new(v[1].clone()))
        }
        "comp" => {
            let code = b[0];
            let mut v = vec![];
            for (k, f) in x.c.iter().enumerate() {
                if f.t == "body" || (code == 20 && k == 11) {
                    continue;
                }
                v.push(if g.p(noise) {
                    Val::Null
                } else if code == 40 && k == 7 && g.p(5) {
                    let d = Val::Desc(Box::new(Val::Sym("apache.org:selector-filter:string".into())), Box::new(Val::Str("a = 1".into())));
                    Val::Map(vec![(Val::Sym("selector".into()), d)])
                } else {
                    to_val(f, g, noise)
                });
            }
            if g.p(60) {
                while v.last() == Some(&Val::Null) {
                    v.pop();
                }
            } else if g.p(noise) {
                v.push(Val::Null);
            }
            Val::Desc(Box::new(descr(g, code)), Box::new(Val::List(v)))
        }
        _ => Val::Null,
    }
}
fn form(g: &mut G) -> Form {
    Form(match g.r.below(5) {
        0 => 0,
        1 => 1,
        _ => g.r.next() | 2,
    })
}
pub fn wire_of(x: &N, g: &mut G, noise: usize, o: &mut Vec<u8>) {
    let mut f = form(g);
    match x.t.as_str() {
        "empty" => {}
        "msg" => {
            let codes = [112u8, 113, 114, 115, 116, 117, 118, 119, 120];
            let mut sec: Vec<(u8, N)> = vec![];
            for (k, s) in x.c.iter().enumerate() {
                match s.t.as_str() {
                    "datas" | "seqs" => sec.extend(s.c.iter().map(|y| (codes[k], y.clone()))),
                    "absent" => {}
                    _ => sec.push((codes[k], s.clone())),
                }
            }
            if g.p(noise) && !sec.is_empty() {
                let i = g.r.below(sec.len());
                let s = sec.remove(i);
                let k = g.r.below(sec.len() + 1);
                sec.insert(k, s);
            }
            for (code, s) in sec {
                let v = to_val(&s, g, noise);
                let v = if s.t == "comp" { v } else { Val::Desc(Box::new(descr(g, code)), Box::new(v)) };
                wire::enc(&v, &mut f, o);
            }
        }
        _ => {
            let v = to_val(x, g, noise);
            wire::enc(&v, &mut f, o);
            if x.t == "comp" && x.b[0] == 20 {
                if let Some(y) = x.c.get(11) {
                    o.extend(&y.b);
                }
            }
        }
    }
}

fn damage(g: &mut G, b: &mut Vec<u8>) {
    const CODES: [u8; 40] = [
        0, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x81,
        0x82, 0x83, 0x84, 0x94, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0,
    ];
    for _ in 0..1 + g.r.below(3) {
        if b.is_empty() {
            b.push(CODES[g.r.below(40)]);
            continue;
        }
        let i = g.r.below(b.len());
        match g.r.below(8) {
            0 => b.truncate(i),
            1 => b[i] = g.r.next() as u8,
            2 => b[i] = CODES[g.r.below(40)],
            3 => b[i] = b[i].wrapping_add(1),
            4 => b[i] = b[i].wrapping_sub(1),
            5 => b.insert(i, CODES[g.r.below(40)]),
            6 => {
                b.remove(i);
            }
            _ => b.push(g.r.next() as u8),
        }
    }
}

/// arrays of elements without contents cost memory by their count alone, which is left out here
fn monster(b: &[u8]) -> bool {
    for (i, c) in b.iter().enumerate() {
        if *c == 0xf0 && i + 10 <= b.len() {
            let cnt = u32::from_be_bytes(b[i + 5..i + 9].try_into().unwrap());
            if cnt > 3000 && b[i + 9..].iter().take(14).any(|x| (0x40..=0x45).contains(x)) {
                return true;
            }
        }
    }
    false
}

fn res<T: Cd>(b: &[u8], f: impl Fn(&mut Bytes) -> Result<T, ntex_amqp_codec::AmqpParseError>) -> (String, N, usize) {
    let mut x = Bytes::from(b.to_vec());
    let k = x.len();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut x).map(|v| v.node())));
    match r {
        Ok(Ok(v)) => ("ok".into(), v, k - x.len()),
        Ok(Err(_)) => ("err".into(), n("bad", &[], vec![]), 0),
        Err(_) => ("panic".into(), n("bad", &[], vec![]), 0),
    }
}
pub fn dec(ty: &str, b: &[u8]) -> (String, N, usize) {
    fn t<T: Cd + Decode>(b: &[u8]) -> (String, N, usize) {
        res(b, |x| T::decode(x))
    }
    match ty {
        "variant" => t::<Variant>(b),
        "bool" => t::<bool>(b),
        "ubyte" => t::<u8>(b),
        "ushort" => t::<u16>(b),
        "uint" => t::<u32>(b),
        "ulong" => t::<u64>(b),
        "byte" => t::<i8>(b),
        "short" => t::<i16>(b),
        "int" => t::<i32>(b),
        "long" => t::<i64>(b),
        "float" => t::<f32>(b),
        "double" => t::<f64>(b),
        "char" => t::<char>(b),
        "ts" => t::<DateTime<Utc>>(b),
        "uuid" => t::<Uuid>(b),
        "bin" => t::<Bytes>(b),
        "str" => t::<ByteString>(b),
        "sym" => t::<Symbol>(b),
        "list" => t::<List>(b),
        "map" => t::<Map>(b),
        "fields" => t::<Fields>(b),
        "vfields" => t::<VecSymbolMap>(b),
        "strmap" => t::<StringVariantMap>(b),
        "vstrmap" => t::<VecStringMap>(b),
        "array" => t::<Array>(b),
        "uints" => t::<Vec<u32>>(b),
        "symbols" => t::<Symbols>(b),
        "msgid" => t::<MessageId>(b),
        "state" => t::<DeliveryState>(b),
        "outcome" => t::<Outcome>(b),
        "error" => t::<Error>(b),
        "source" => t::<Source>(b),
        "target" => t::<Target>(b),
        "perf" => res(b, |x| Frame::decode(x)),
        "sasl" => res(b, |x| SaslFrameBody::decode(x)),
        "msg" => res(b, |x| Message::decode(x)),
        _ => panic!("type {ty}"),
    }
}
fn canon(ty: &str) -> &str {
    match ty {
        "vfields" => "fields",
        "vstrmap" => "strmap",
        x => x,
    }
}
pub const TYPES: [&str; 36] = [
    "variant", "bool", "ubyte", "ushort", "uint", "ulong", "byte", "short", "int", "long", "float", "double", "char", "ts", "uuid", "bin", "str",
    "sym", "list", "map", "fields", "vfields", "strmap", "vstrmap", "array", "uints", "symbols", "msgid", "state", "outcome", "error", "source",
    "target", "perf", "sasl", "msg",
];
/// a random value of the type: node, bytes written by the real encoder, size it announces
fn make(ty: &str, g: &mut G) -> (N, Vec<u8>, usize, bool) {
    fn t<T: Cd + Encode>(g: &mut G) -> (N, Vec<u8>, usize, bool) {
        let v = T::gen_(g);
        let nd = v.node();
        let s = v.encoded_size();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| raw(&v)));
        let p = r.is_err();
        (nd, r.unwrap_or_default(), s, p)
    }
    fn with<T: Encode + ?Sized>(nd: N, v: &T) -> (N, Vec<u8>, usize, bool) {
        let s = v.encoded_size();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut b = BytesMut::new();
            v.encode(&mut b);
            b.to_vec()
        }));
        let p = r.is_err();
        (nd, r.unwrap_or_default(), s, p)
    }
    match ty {
        "variant" => t::<Variant>(g),
        "bool" => t::<bool>(g),
        "ubyte" => t::<u8>(g),
        "ushort" => t::<u16>(g),
        "uint" => t::<u32>(g),
        "ulong" => t::<u64>(g),
        "byte" => t::<i8>(g),
        "short" => t::<i16>(g),
        "int" => t::<i32>(g),
        "long" => t::<i64>(g),
        "float" => t::<f32>(g),
        "double" => t::<f64>(g),
        "char" => t::<char>(g),
        "ts" => t::<DateTime<Utc>>(g),
        "uuid" => t::<Uuid>(g),
        "bin" => t::<Bytes>(g),
        // the other writers of strings and symbols of the public API
        "str" if g.p(30) => {
            let x = ByteString::gen_(g);
            let nd = x.node();
            with(nd, &if g.p(50) { ntex_amqp::codec::types::Str::from(x) } else { x.as_str().to_string().into() })
        }
        "str" if g.p(30) => {
            let x = ByteString::gen_(g);
            with(x.node(), &*x)
        }
        "sym" if g.p(40) => {
            let x = Symbol::gen_(g);
            with(x.node(), &ntex_amqp::codec::types::StaticSymbol::from(&*Box::leak(x.as_str().to_string().into_boxed_str())))
        }
        "str" => t::<ByteString>(g),
        "sym" => t::<Symbol>(g),
        "list" => t::<List>(g),
        "map" => t::<Map>(g),
        "fields" => t::<Fields>(g),
        "vfields" => t::<VecSymbolMap>(g),
        "strmap" => t::<StringVariantMap>(g),
        "vstrmap" => t::<VecStringMap>(g),
        "array" => t::<Array>(g),
        "uints" => t::<Vec<u32>>(g),
        "symbols" => t::<Symbols>(g),
        "msgid" => t::<MessageId>(g),
        "state" => t::<DeliveryState>(g),
        "outcome" => t::<Outcome>(g),
        "error" => t::<Error>(g),
        "source" => t::<Source>(g),
        "target" => t::<Target>(g),
        "perf" => t::<Frame>(g),
        "sasl" => t::<SaslFrameBody>(g),
        "msg" => t::<Message>(g),
        _ => panic!("type {ty}"),
    }
}

/// an array with any element constructor, described or not
fn special(g: &mut G) -> Vec<u8> {
    const C: [u8; 32] = [
        0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x56, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x83, 0x98,
        0xa0, 0xa1, 0xa3, 0xb0, 0xb3, 0xc0, 0xd0, 0xc1, 0xe0,
    ];
    let c = C[g.r.below(32)];
    let cnt = match g.r.below(6) {
        0 => 0,
        1 => 254 + g.r.below(4),
        _ => g.r.below(5),
    };
    let mut body = vec![];
    if g.p(25) {
        body.push(0);
        wire::enc(&to_val(&Descriptor::gen_(g).node(), g, 0), &mut form(g), &mut body);
    }
    body.push(c);
    for _ in 0..cnt {
        match c {
            0x40..=0x45 => {}
            0x56 => body.push(g.r.below(2) as u8),
            0x50..=0x55 => body.push(g.r.next() as u8),
            0x60 | 0x61 => body.extend(u16::gen_(g).to_be_bytes()),
            0x73 => body.extend((char::gen_(g) as u32).to_be_bytes()),
            0x70..=0x74 => body.extend(u32::gen_(g).to_be_bytes()),
            0x83 => body.extend((g.r.below(1 << 40) as u64).to_be_bytes()),
            0x80 => body.extend(u64::gen_(g).to_be_bytes()),
            0x98 => body.extend(Uuid::gen_(g).as_bytes()),
            0xa0..=0xa3 => {
                let k = g.r.below(3);
                body.push(k as u8);
                body.extend((0..k).map(|_| b'x'));
            }
            0xb0..=0xb3 => {
                let k = g.r.below(3);
                body.extend((k as u32).to_be_bytes());
                body.extend((0..k).map(|_| b'y'));
            }
            0xe0 => body.extend([3, 1, 0x50, g.r.next() as u8]),
            _ => {
                let k = 2 * g.r.below(2);
                let mut i = vec![];
                for j in 0..k {
                    i.extend([0x50, j as u8]);
                }
                if c == 0xd0 {
                    body.extend((i.len() as u32 + 4).to_be_bytes());
                    body.extend((k as u32).to_be_bytes());
                } else {
                    body.extend([i.len() as u8 + 1, k as u8]);
                }
                body.extend(i);
            }
        }
    }
    let mut o = vec![];
    if g.p(20) {
        o.extend([0, 0x53, g.r.next() as u8]);
    }
    if body.len() < 255 && cnt < 256 && g.p(60) {
        o.extend([0xe0, body.len() as u8 + 1, cnt as u8]);
    } else {
        o.push(0xf0);
        o.extend((body.len() as u32 + 4).to_be_bytes());
        o.extend((cnt as u32).to_be_bytes());
    }
    o.extend(body);
    o
}
/// a value that came from the wire is written again
fn again(ty: &str, b: &[u8]) -> Option<(N, Vec<u8>, usize)> {
    fn t<T: Cd + Decode + Encode>(b: &[u8]) -> Option<(N, Vec<u8>, usize)> {
        let v = T::decode(&mut Bytes::from(b.to_vec())).ok()?;
        Some((v.node(), raw(&v), v.encoded_size()))
    }
    std::panic::catch_unwind(|| match ty {
        "variant" => t::<Variant>(b),
        "array" => t::<Array>(b),
        "list" => t::<List>(b),
        "map" => t::<Map>(b),
        "symbols" => t::<Symbols>(b),
        "state" => t::<DeliveryState>(b),
        "source" => t::<Source>(b),
        "target" => t::<Target>(b),
        "perf" => {
            let v = Frame::decode(&mut Bytes::from(b.to_vec())).ok()?;
            Some((v.node(), raw(&v), v.encoded_size()))
        }
        "msg" => {
            let v = Message::decode(&mut Bytes::from(b.to_vec())).ok()?;
            Some((v.node(), raw(&v), v.encoded_size()))
        }
        _ => None,
    })
    .ok()
    .flatten()
}
fn has_bad(x: &N) -> bool {
    x.t == "bad" || x.c.iter().any(has_bad)
}

/// one record of the codec relation
pub fn record(g: &mut G) -> J {
    // composites are the larger part
    let ty = if g.p(45) { ["perf", "perf", "perf", "msg", "sasl", "source", "state"][g.r.below(7)] } else { TYPES[g.r.below(36)] };
    let ty = if g.p(8) { "arr!" } else { ty };
    loop {
        let (ty, nd, bytes, size, panic) = if ty == "arr!" {
            let t = if g.p(80) { "variant" } else { ["array", "symbols", "uints"][g.r.below(3)] };
            (t, n("raw", &special(g), vec![]), vec![], 0, false)
        } else {
            let x = make(ty, g);
            (ty, x.0, x.1, x.2, x.3)
        };
        if bytes.len() > 900 {
            continue;
        }
        if nd.t != "raw" && g.p(35) {
            let (s, _, _) = if panic { ("panic".to_string(), nd.clone(), 0) } else { dec(ty, &bytes) };
            // the real decoder has to be able to read it back, which is a record of its own
            return json!({"k": "enc", "ty": canon(ty), "real": ty, "n": nd.j(), "bytes": bytes, "size": size,
                "s": if panic { "panic".to_string() } else { s }});
        }
        let mut b = vec![];
        let noise = if g.p(50) { 0 } else { 12 };
        if nd.t == "raw" {
            b = nd.b.clone();
        } else {
            wire_of(&nd, g, noise, &mut b);
        }
        if g.p(35) {
            damage(g, &mut b);
        }
        // what follows the value is none of its business
        if ty != "msg" && ty != "perf" && g.p(30) {
            b.push(g.r.next() as u8);
        }
        if b.len() > 900 || monster(&b) {
            continue;
        }
        if g.p(30) {
            if let Some((nd, bytes, size)) = again(ty, &b) {
                if !has_bad(&nd) {
                    let (s, _, _) = dec(ty, &bytes);
                    return json!({"k": "enc", "ty": canon(ty), "real": ty, "n": nd.j(), "bytes": bytes, "size": size, "s": s});
                }
            }
        }
        let (s, x, used) = dec(ty, &b);
        return json!({"k": "dec", "ty": canon(ty), "real": ty, "bytes": b, "s": s, "n": x.j(), "used": used});
    }
}

// ------------------------------------------------------------------------------------------------
// streams of frames

fn frame_bytes(g: &mut G, amqp: bool) -> Vec<u8> {
    let (body, chan) = if amqp {
        if g.p(8) {
            (vec![], u16::gen_(g))
        } else {
            let f = Frame::gen_(g);
            let mut b = vec![];
            wire_of(&f.node(), g, 0, &mut b);
            (b, u16::gen_(g))
        }
    } else {
        let mut b = vec![];
        wire_of(&SaslFrameBody::gen_(g).node(), g, 0, &mut b);
        (b, if g.p(70) { 0 } else { u16::gen_(g) })
    };
    let doff = if g.p(80) { 2 } else { 2 + g.r.below(4) };
    let mut o = vec![];
    let size = body.len() + doff * 4;
    o.extend((size as u32).to_be_bytes());
    o.push(doff as u8);
    o.push(!amqp as u8);
    o.extend(chan.to_be_bytes());
    for _ in 0..(doff - 2) * 4 {
        o.push(g.r.next() as u8);
    }
    o.extend(body);
    let odds = if g.p(50) { 400 } else { 16 };
    match g.r.below(odds) {
        0 => o[4] = g.r.below(4) as u8,
        1 => o[4] = g.r.next() as u8,
        2 => o[5] = g.r.below(3) as u8,
        3 => {
            let z = g.r.below(12) as u32;
            o[..4].copy_from_slice(&z.to_be_bytes());
        }
        4 => {
            let z = (size as u32).wrapping_add(g.r.below(9) as u32).wrapping_sub(4);
            o[..4].copy_from_slice(&z.to_be_bytes());
        }
        5 => {
            let i = g.r.below(o.len());
            o[i] = g.r.next() as u8;
        }
        6 => o[g.r.below(4)] ^= 1 << g.r.below(8),
        _ => {}
    }
    o
}
fn err_name(e: &ntex_amqp_codec::AmqpCodecError) -> &'static str {
    match e {
        ntex_amqp_codec::AmqpCodecError::MaxSizeExceeded => "max",
        ntex_amqp_codec::AmqpCodecError::InvalidFrameSize => "size",
        _ => "parse",
    }
}
pub fn drive_stream(kind: &str, max: usize, stream: &[u8], chunks: &[usize]) -> Vec<J> {
    let mut out = vec![];
    let mut buf = BytesMut::with_capacity(64);
    let mut at = 0;
    let a = AmqpCodec::<AmqpFrame>::new().max_size(max);
    let s = AmqpCodec::<SaslFrame>::new().max_size(max);
    let p = ProtocolIdCodec;
    for c in chunks {
        buf.extend_from_slice(&stream[at..at + c]);
        at += c;
        loop {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
                "amqp" => match a.decode(&mut buf) {
                    Ok(Some(f)) => Ok(Some((f.channel_id(), f.performative().node()))),
                    Ok(None) => Ok(None),
                    Err(e) => Err(err_name(&e)),
                },
                "sasl" => match s.decode(&mut buf) {
                    Ok(Some(f)) => Ok(Some((0, f.body.node()))),
                    Ok(None) => Ok(None),
                    Err(e) => Err(err_name(&e)),
                },
                _ => match p.decode(&mut buf) {
                    Ok(Some(f)) => Ok(Some((0, n("proto", &[f as u8], vec![])))),
                    Ok(None) => Ok(None),
                    Err(_) => Err("proto"),
                },
            }));
            match r {
                Ok(Ok(Some((ch, nd)))) => out.push(json!({"at": at, "s": "ok", "n": nd.j(), "ch": ch, "e": ""})),
                Ok(Ok(None)) => break,
                Ok(Err(e)) => {
                    out.push(json!({"at": at, "s": "err", "n": n("bad", &[], vec![]).j(), "ch": 0, "e": e}));
                    return out;
                }
                Err(_) => {
                    out.push(json!({"at": at, "s": "panic", "n": n("bad", &[], vec![]).j(), "ch": 0, "e": "panic"}));
                    return out;
                }
            }
        }
    }
    out
}
pub fn chunking(g: &mut G, l: usize) -> Vec<usize> {
    let mut c = vec![];
    let mut rest = l;
    let mode = g.r.below(4);
    while rest > 0 {
        let k = match mode {
            0 => rest,
            1 => 1 + g.r.below(3),
            2 => 1 + g.r.below(12),
            _ => 1 + g.r.below(90),
        }
        .min(rest);
        c.push(k);
        rest -= k;
    }
    c
}
pub fn stream_record(g: &mut G) -> J {
    let kind = ["amqp", "amqp", "amqp", "sasl", "proto"][g.r.below(5)];
    if g.p(20) && kind != "proto" {
        // encoding of whole frames
        let (nd, ch, b, size, panic) = if kind == "amqp" {
            let f = AmqpFrame::new(u16::gen_(g), Frame::gen_(g));
            let f = if g.p(5) { AmqpFrame::new(f.channel_id(), Frame::Empty) } else { f };
            let (nd, ch, sz) = (f.performative().node(), f.channel_id(), f.encoded_size());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut b = BytesMut::new();
                let _ = AmqpCodec::<AmqpFrame>::new().encode(f, &mut b);
                b.to_vec()
            }));
            let p = r.is_err();
            (nd, ch, r.unwrap_or_default(), sz, p)
        } else {
            let f = SaslFrame::new(SaslFrameBody::gen_(g));
            let (nd, sz) = (f.body.node(), f.encoded_size());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut b = BytesMut::new();
                let _ = AmqpCodec::<SaslFrame>::new().encode(f, &mut b);
                b.to_vec()
            }));
            let p = r.is_err();
            (nd, 0, r.unwrap_or_default(), sz, p)
        };
        if b.len() < 900 {
            return json!({"k": "encf", "kind": kind, "n": nd.j(), "ch": ch, "bytes": b, "size": size, "s": if panic { "panic" } else { "ok" }});
        }
    }
    let mut b = vec![];
    let nf = 1 + g.r.below(5);
    for _ in 0..nf {
        if kind == "proto" {
            let mut h = vec![b'A', b'M', b'Q', b'P', [0, 2, 3][g.r.below(3)], 1, 0, 0];
            if g.p(15) {
                let i = g.r.below(8);
                h[i] = if g.p(50) { g.r.below(5) as u8 } else { g.r.next() as u8 };
            }
            b.extend(h);
        } else {
            let f = frame_bytes(g, kind == "amqp");
            if f.len() < 500 {
                b.extend(f);
            }
        }
    }
    if g.p(20) {
        let k = g.r.below(b.len() + 1);
        b.truncate(k);
    }
    if monster(&b) {
        b = vec![0, 0, 0, 8, 2, 0, 0, 0];
    }
    let max = match g.r.below(4) {
        0 | 1 => 0,
        2 => 8 + g.r.below(80),
        _ => {
            // around the size of one of the frames
            let z = if b.len() >= 4 { u32::from_be_bytes(b[..4].try_into().unwrap()) as usize } else { 8 };
            (z.min(1000) + g.r.below(3)).saturating_sub(1)
        }
    };
    let chunks = chunking(g, b.len());
    let res = drive_stream(kind, max, &b, &chunks);
    json!({"k": "stream", "kind": kind, "max": max, "bytes": b, "chunks": chunks, "res": res})
}

pub fn run(mode: &str, seed: u64, nrec: usize, only: Option<usize>, out: &mut dyn std::io::Write) {
    for i in 0..nrec {
        if only.is_some_and(|x| x != i) {
            continue;
        }
        let mut g = G { r: Rng::new(seed.wrapping_mul(7_919_003).wrapping_add(i as u64)), depth: 0 };
        let mut r = if mode == "stream" { stream_record(&mut g) } else { record(&mut g) };
        r["id"] = json!(i);
        writeln!(out, "{r}").unwrap();
    }
}
/// replay of vectors written by TLC: the same records without results
pub fn replay(v: &J) -> J {
    let mut r = v.clone();
    let b = bytes_of(&v["bytes"]);
    match v["k"].as_str().unwrap() {
        "dec" => {
            let ty = v["real"].as_str().or(v["ty"].as_str()).unwrap();
            let (s, x, used) = dec(ty, &b);
            r["s"] = json!(s);
            r["n"] = x.j();
            r["used"] = json!(used);
        }
        "stream" => {
            let ch: Vec<usize> = v["chunks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            r["res"] = json!(drive_stream(v["kind"].as_str().unwrap(), v["max"].as_u64().unwrap() as usize, &b, &ch));
        }
        _ => {}
    }
    r
}
