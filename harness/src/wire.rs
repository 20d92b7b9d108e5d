//! Independent AMQP 1.0 wire codec used by the test peer (shares no code with the crates under test).
use serde_json::{Map, Value as J, json};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    D32([u8; 4]),
    D64([u8; 8]),
    D128([u8; 16]),
    Char(u32),
    Ts(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    /// element constructor code + elements
    Arr(Vec<Val>),
    Desc(Box<Val>, Box<Val>),
    /// bytes as they are
    Raw(Vec<u8>),
}

/// Chooser of wire forms: 0 = most compact, 1 = widest, otherwise pseudo random per value
#[derive(Clone, Copy)]
pub struct Form(pub u64);
impl Form {
    fn wide(&mut self) -> bool {
        match self.0 {
            0 => false,
            1 => true,
            _ => {
                self.0 ^= self.0 << 13;
                self.0 ^= self.0 >> 7;
                self.0 ^= self.0 << 17;
                if self.0 < 2 {
                    self.0 = 88172645463325252;
                }
                self.0 & 0x40 != 0
            }
        }
    }
}

pub fn enc(v: &Val, f: &mut Form, o: &mut Vec<u8>) {
    match v {
        Val::Raw(b) => o.extend(b),
        Val::Null => o.push(0x40),
        Val::Bool(b) => {
            if f.wide() {
                o.push(0x56);
                o.push(*b as u8);
            } else {
                o.push(if *b { 0x41 } else { 0x42 });
            }
        }
        Val::U8(x) => {
            o.push(0x50);
            o.push(*x)
        }
        Val::U16(x) => {
            o.push(0x60);
            o.extend(x.to_be_bytes())
        }
        Val::U32(x) => {
            let w = f.wide();
            if *x == 0 && !w {
                o.push(0x43)
            } else if *x < 256 && !(w && f.wide()) {
                o.push(0x52);
                o.push(*x as u8)
            } else {
                o.push(0x70);
                o.extend(x.to_be_bytes())
            }
        }
        Val::U64(x) => {
            let w = f.wide();
            if *x == 0 && !w {
                o.push(0x44)
            } else if *x < 256 && !(w && f.wide()) {
                o.push(0x53);
                o.push(*x as u8)
            } else {
                o.push(0x80);
                o.extend(x.to_be_bytes())
            }
        }
        Val::I8(x) => {
            o.push(0x51);
            o.push(*x as u8)
        }
        Val::I16(x) => {
            o.push(0x61);
            o.extend(x.to_be_bytes())
        }
        Val::I32(x) => {
            if *x >= -128 && *x < 128 && !f.wide() {
                o.push(0x54);
                o.push(*x as u8)
            } else {
                o.push(0x71);
                o.extend(x.to_be_bytes())
            }
        }
        Val::I64(x) => {
            if *x >= -128 && *x < 128 && !f.wide() {
                o.push(0x55);
                o.push(*x as u8)
            } else {
                o.push(0x81);
                o.extend(x.to_be_bytes())
            }
        }
        Val::F32(x) => {
            o.push(0x72);
            o.extend(x.to_be_bytes())
        }
        Val::F64(x) => {
            o.push(0x82);
            o.extend(x.to_be_bytes())
        }
        Val::D32(x) => {
            o.push(0x74);
            o.extend(x)
        }
        Val::D64(x) => {
            o.push(0x84);
            o.extend(x)
        }
        Val::D128(x) => {
            o.push(0x94);
            o.extend(x)
        }
        Val::Char(x) => {
            o.push(0x73);
            o.extend(x.to_be_bytes())
        }
        Val::Ts(x) => {
            o.push(0x83);
            o.extend(x.to_be_bytes())
        }
        Val::Uuid(x) => {
            o.push(0x98);
            o.extend(x)
        }
        Val::Bin(x) => var(0xa0, 0xb0, x, f, o),
        Val::Str(x) => var(0xa1, 0xb1, x.as_bytes(), f, o),
        Val::Sym(x) => var(0xa3, 0xb3, x.as_bytes(), f, o),
        Val::List(xs) => {
            let mut b = vec![];
            for x in xs {
                enc(x, f, &mut b);
            }
            let w = f.wide();
            if xs.is_empty() && !w {
                o.push(0x45)
            } else {
                comp(0xc0, 0xd0, xs.len(), &b, w && f.wide(), o)
            }
        }
        Val::Map(xs) => {
            let mut b = vec![];
            for (k, x) in xs {
                enc(k, f, &mut b);
                enc(x, f, &mut b);
            }
            let w = f.wide();
            comp(0xc1, 0xd1, xs.len() * 2, &b, w, o)
        }
        Val::Arr(xs) => {
            // elements share the widest constructor of the first element's type
            let mut b = vec![];
            if xs.is_empty() {
                b.push(0x40);
            } else {
                let mut e0 = vec![];
                arr_elem(&xs[0], true, &mut e0);
                b.extend(e0);
                for x in &xs[1..] {
                    arr_elem(x, false, &mut b);
                }
            }
            let w = f.wide();
            comp(0xe0, 0xf0, xs.len(), &b, w, o)
        }
        Val::Desc(d, x) => {
            o.push(0);
            enc(d, f, o);
            enc(x, f, o);
        }
    }
}

fn arr_elem(v: &Val, ctor: bool, o: &mut Vec<u8>) {
    // always the wide constructor
    let mut t = vec![];
    match v {
        Val::Bool(_) | Val::U32(_) | Val::U64(_) | Val::I32(_) | Val::I64(_) | Val::Bin(_) | Val::Str(_)
        | Val::Sym(_) | Val::Map(_) => enc(v, &mut Form(1), &mut t),
        Val::List(xs) => {
            let mut b = vec![];
            for x in xs {
                enc(x, &mut Form(0), &mut b);
            }
            comp(0xc0, 0xd0, xs.len(), &b, true, &mut t)
        }
        Val::Desc(d, x) => {
            if ctor {
                o.push(0);
                enc(d, &mut Form(0), o);
            }
            arr_elem(x, ctor, o);
            return;
        }
        _ => enc(v, &mut Form(1), &mut t),
    }
    o.extend(if ctor { &t[..] } else { &t[1..] });
}

fn var(c8: u8, c32: u8, x: &[u8], f: &mut Form, o: &mut Vec<u8>) {
    if x.len() < 256 && !f.wide() {
        o.push(c8);
        o.push(x.len() as u8);
    } else {
        o.push(c32);
        o.extend((x.len() as u32).to_be_bytes());
    }
    o.extend(x);
}

fn comp(c8: u8, c32: u8, n: usize, b: &[u8], wide: bool, o: &mut Vec<u8>) {
    if b.len() + 1 < 256 && n < 256 && !wide {
        o.push(c8);
        o.push((b.len() + 1) as u8);
        o.push(n as u8);
    } else {
        o.push(c32);
        o.extend((b.len() as u32 + 4).to_be_bytes());
        o.extend((n as u32).to_be_bytes());
    }
    o.extend(b);
}

pub struct Rd<'a>(pub &'a [u8]);
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
    fn n(&mut self, n: usize) -> R<&'a [u8]> {
        if self.0.len() < n {
            return Err("short".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.n(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        Ok(u16::from_be_bytes(self.n(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_be_bytes(self.n(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> R<u64> {
        Ok(u64::from_be_bytes(self.n(8)?.try_into().unwrap()))
    }
    pub fn val(&mut self) -> R<Val> {
        let c = self.u8()?;
        self.val_c(c)
    }
    fn str(&mut self, n: usize) -> R<String> {
        String::from_utf8(self.n(n)?.to_vec()).map_err(|e| e.to_string())
    }
    fn val_c(&mut self, c: u8) -> R<Val> {
        Ok(match c {
            0 => {
                let d = self.val()?;
                let v = self.val()?;
                Val::Desc(Box::new(d), Box::new(v))
            }
            0x40 => Val::Null,
            0x41 => Val::Bool(true),
            0x42 => Val::Bool(false),
            0x56 => match self.u8()? {
                0 => Val::Bool(false),
                1 => Val::Bool(true),
                _ => return Err("bool".into()),
            },
            0x50 => Val::U8(self.u8()?),
            0x60 => Val::U16(self.u16()?),
            0x70 => Val::U32(self.u32()?),
            0x52 => Val::U32(self.u8()? as u32),
            0x43 => Val::U32(0),
            0x80 => Val::U64(self.u64()?),
            0x53 => Val::U64(self.u8()? as u64),
            0x44 => Val::U64(0),
            0x51 => Val::I8(self.u8()? as i8),
            0x61 => Val::I16(self.u16()? as i16),
            0x71 => Val::I32(self.u32()? as i32),
            0x54 => Val::I32(self.u8()? as i8 as i32),
            0x81 => Val::I64(self.u64()? as i64),
            0x55 => Val::I64(self.u8()? as i8 as i64),
            0x72 => Val::F32(self.u32()?),
            0x82 => Val::F64(self.u64()?),
            0x74 => Val::D32(self.n(4)?.try_into().unwrap()),
            0x84 => Val::D64(self.n(8)?.try_into().unwrap()),
            0x94 => Val::D128(self.n(16)?.try_into().unwrap()),
            0x73 => Val::Char(self.u32()?),
            0x83 => Val::Ts(self.u64()? as i64),
            0x98 => Val::Uuid(self.n(16)?.try_into().unwrap()),
            0xa0 => {
                let n = self.u8()? as usize;
                Val::Bin(self.n(n)?.to_vec())
            }
            0xb0 => {
                let n = self.u32()? as usize;
                Val::Bin(self.n(n)?.to_vec())
            }
            0xa1 => {
                let n = self.u8()? as usize;
                Val::Str(self.str(n)?)
            }
            0xb1 => {
                let n = self.u32()? as usize;
                Val::Str(self.str(n)?)
            }
            0xa3 => {
                let n = self.u8()? as usize;
                Val::Sym(self.str(n)?)
            }
            0xb3 => {
                let n = self.u32()? as usize;
                Val::Sym(self.str(n)?)
            }
            0x45 => Val::List(vec![]),
            0xc0 | 0xd0 | 0xc1 | 0xd1 | 0xe0 | 0xf0 => {
                let (sz, n) = if c & 0x10 == 0 {
                    let s = self.u8()? as usize;
                    (s.checked_sub(1).ok_or("size")?, self.u8()? as usize)
                } else {
                    let s = self.u32()? as usize;
                    (s.checked_sub(4).ok_or("size")?, self.u32()? as usize)
                };
                let mut r = Rd(self.n(sz)?);
                let v = match c & 0xef {
                    0xc0 => {
                        let mut v = vec![];
                        for _ in 0..n {
                            v.push(r.val()?);
                        }
                        Val::List(v)
                    }
                    0xc1 => {
                        if n % 2 != 0 {
                            return Err("odd map".into());
                        }
                        let mut v = vec![];
                        for _ in 0..n / 2 {
                            v.push((r.val()?, r.val()?));
                        }
                        Val::Map(v)
                    }
                    _ => {
                        let mut v = vec![];
                        let c = r.u8()?;
                        let d = if c == 0 { Some(r.val()?) } else { None };
                        let c = if c == 0 { r.u8()? } else { c };
                        for _ in 0..n {
                            let x = r.val_c(c)?;
                            v.push(match &d {
                                Some(d) => Val::Desc(Box::new(d.clone()), Box::new(x)),
                                None => x,
                            });
                        }
                        Val::Arr(v)
                    }
                };
                if !r.0.is_empty() {
                    return Err("trailing in compound".into());
                }
                v
            }
            _ => return Err(format!("code {c:x}")),
        })
    }
}

pub const NONE: i64 = 2_000_000_000;
pub const CAP: i64 = 1_000_000_000;

/// serial number (u32) -> small signed integer
pub fn sid(x: u32) -> i64 {
    (x as i32 as i64).clamp(-CAP, CAP)
}
/// quantity, capped
pub fn qty(x: u64) -> i64 {
    (x.min(CAP as u64)) as i64
}
/// JSON integer (maybe negative) -> u32
pub fn u32j(x: &J) -> Option<u32> {
    x.as_i64().map(|v| v as u32)
}

pub fn rle(b: &[u8]) -> J {
    let mut out: Vec<J> = vec![];
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] == b[i] {
            j += 1;
        }
        out.push(json!([b[i], j - i]));
        i = j;
    }
    J::Array(out)
}
pub fn unrle(v: &J) -> Vec<u8> {
    let mut o = vec![];
    if let Some(a) = v.as_array() {
        for e in a {
            if let Some(p) = e.as_array() {
                let b = p[0].as_u64().unwrap() as u8;
                let n = p[1].as_u64().unwrap() as usize;
                o.resize(o.len() + n, b);
            } else {
                o.push(e.as_u64().unwrap_or(0) as u8)
            }
        }
    }
    o
}

pub fn desc(code: u64, mut fields: Vec<Val>, trim: bool) -> Val {
    if trim {
        while fields.last() == Some(&Val::Null) {
            fields.pop();
        }
    }
    Val::Desc(Box::new(Val::U64(code)), Box::new(Val::List(fields)))
}

pub fn frame(ty: u8, ch: u16, body: &[u8], ext: usize) -> Vec<u8> {
    let mut o = vec![];
    let sz = 8 + ext * 4 + body.len();
    o.extend((sz as u32).to_be_bytes());
    o.push(2 + ext as u8);
    o.push(ty);
    o.extend(ch.to_be_bytes());
    o.extend(vec![0xee; ext * 4]);
    o.extend(body);
    o
}

fn s(j: &J) -> Val {
    match j.as_str() {
        Some(x) => Val::Str(x.into()),
        None => Val::Null,
    }
}
fn n32(j: &J) -> Val {
    u32j(j).map(Val::U32).unwrap_or(Val::Null)
}
fn n16(j: &J) -> Val {
    j.as_i64().map(|x| Val::U16(x as u16)).unwrap_or(Val::Null)
}
fn n64(j: &J) -> Val {
    j.as_i64().map(|x| Val::U64(x as u64)).unwrap_or(Val::Null)
}
fn bo(j: &J) -> Val {
    j.as_bool().map(Val::Bool).unwrap_or(Val::Null)
}
fn n8(j: &J) -> Val {
    j.as_i64().map(|x| Val::U8(x as u8)).unwrap_or(Val::Null)
}

pub fn err_val(j: &J) -> Val {
    match j.as_str() {
        None => Val::Null,
        Some(x) => {
            let (c, d) = x.split_once('|').unwrap_or((x, ""));
            desc(
                0x1d,
                vec![
                    Val::Sym(c.into()),
                    if d.is_empty() { Val::Null } else { Val::Str(d.into()) },
                    Val::Null,
                ],
                true,
            )
        }
    }
}

/// "acc" | "rej" | "rej:cond|desc" | "rel" | "mod" | "rcv:N"
pub fn state_val(j: &J) -> Val {
    let Some(x) = j.as_str() else { return Val::Null };
    let (k, a) = x.split_once(':').unwrap_or((x, ""));
    match k {
        "acc" => desc(0x24, vec![], true),
        "rej" => {
            if a.is_empty() {
                desc(0x25, vec![], true)
            } else {
                desc(0x25, vec![err_val(&J::String(a.into()))], true)
            }
        }
        "rel" => desc(0x26, vec![], true),
        "mod" => desc(0x27, vec![Val::Bool(true)], true),
        "rcv" => {
            let n: u64 = a.parse().unwrap_or(0);
            desc(0x23, vec![Val::U32(1), Val::U64(n)], true)
        }
        _ => Val::Null,
    }
}

fn term(code: u64, addr: &J) -> Val {
    match addr.as_str() {
        None => {
            if addr.as_bool() == Some(true) {
                desc(code, vec![], true)
            } else {
                Val::Null
            }
        }
        Some(a) => desc(code, vec![Val::Str(a.into())], true),
    }
}

/// Encode the frame described by a command object
/// list of symbols; a single one may stand for itself
fn syms(j: &J) -> Val {
    let v: Vec<Val> = j.as_array().map(|a| a.iter().map(|x| Val::Sym(x.as_str().unwrap_or("").into())).collect()).unwrap_or_default();
    match v.len() {
        0 => Val::Null,
        1 => v.into_iter().next().unwrap(),
        _ => Val::Arr(v),
    }
}
fn syms_of(v: Option<&Val>) -> Vec<J> {
    match v {
        Some(Val::Arr(a)) => a.iter().map(|x| match x { Val::Sym(s) => json!(s), _ => json!("?") }).collect(),
        Some(Val::Sym(s)) => vec![json!(s)],
        _ => vec![],
    }
}
pub fn encode_cmd(c: &J) -> Vec<u8> {
    let mut form = Form(c["form"].as_u64().unwrap_or(0));
    let trim = !c["notrim"].as_bool().unwrap_or(false);
    let ch = c["ch"].as_i64().unwrap_or(0) as u16;
    let ext = c["ext"].as_u64().unwrap_or(0) as usize;
    let f = c["f"].as_str().unwrap_or("");
    let mut payload = vec![];
    let mut ty = 0u8;
    let v = match f {
        "hdr" => {
            let mut o = b"AMQP".to_vec();
            o.push(c["proto"].as_u64().unwrap_or(0) as u8);
            o.extend([1, 0, 0]);
            return o;
        }
        "raw" => return unrle(&c["bytes"]),
        "empty" => return frame(0, ch, &[], ext),
        "open" => desc(
            0x10,
            vec![
                Val::Str(c["cid"].as_str().unwrap_or("peer").into()),
                s(&c["host"]),
                n32(&c["mfs"]),
                n16(&c["chmax"]),
                n32(&c["idle"]),
                Val::Null,
                Val::Null,
                syms(&c["off"]),
                syms(&c["des"]),
            ],
            trim,
        ),
        "begin" => desc(
            0x11,
            vec![
                n16(&c["rch"]),
                Val::U32(u32j(&c["noi"]).unwrap_or(1)),
                Val::U32(u32j(&c["iw"]).unwrap_or(100)),
                Val::U32(u32j(&c["ow"]).unwrap_or(100)),
                n32(&c["hmax"]),
            ],
            trim,
        ),
        "attach" => desc(
            0x12,
            vec![
                Val::Str(c["name"].as_str().unwrap_or("l").into()),
                Val::U32(u32j(&c["h"]).unwrap_or(0)),
                Val::Bool(c["role"].as_str() == Some("R")),
                n8(&c["ssm"]),
                n8(&c["rsm"]),
                term(0x28, &c["src"]),
                term(0x29, &c["tgt"]),
                Val::Null,
                Val::Null,
                n32(&c["idc"]),
                n64(&c["mms"]),
            ],
            trim,
        ),
        "flow" => desc(
            0x13,
            vec![
                n32(&c["nii"]),
                Val::U32(u32j(&c["iw"]).unwrap_or(100)),
                Val::U32(u32j(&c["noi"]).unwrap_or(1)),
                Val::U32(u32j(&c["ow"]).unwrap_or(100)),
                n32(&c["h"]),
                n32(&c["dc"]),
                n32(&c["cr"]),
                n32(&c["avail"]),
                bo(&c["drain"]),
                bo(&c["echo"]),
            ],
            trim,
        ),
        "transfer" => {
            payload = unrle(&c["body"]);
            desc(
                0x14,
                vec![
                    Val::U32(u32j(&c["h"]).unwrap_or(0)),
                    n32(&c["did"]),
                    if c["tag"].is_array() { Val::Bin(unrle(&c["tag"])) } else { Val::Null },
                    n32(&c["fmt"]),
                    bo(&c["st"]),
                    bo(&c["more"]),
                    n8(&c["rsm"]),
                    state_val(&c["state"]),
                    bo(&c["resume"]),
                    bo(&c["ab"]),
                    bo(&c["batch"]),
                ],
                trim,
            )
        }
        "disp" => desc(
            0x15,
            vec![
                Val::Bool(c["role"].as_str() == Some("R")),
                Val::U32(u32j(&c["first"]).unwrap_or(0)),
                n32(&c["last"]),
                bo(&c["st"]),
                state_val(&c["state"]),
                bo(&c["batch"]),
            ],
            trim,
        ),
        "detach" => desc(
            0x16,
            vec![Val::U32(u32j(&c["h"]).unwrap_or(0)), bo(&c["closed"]), err_val(&c["err"])],
            trim,
        ),
        "end" => desc(0x17, vec![err_val(&c["err"])], trim),
        "close" => desc(0x18, vec![err_val(&c["err"])], trim),
        "mechs" => {
            ty = 1;
            let ms: Vec<Val> = c["mechs"]
                .as_array()
                .map(|a| a.iter().map(|x| Val::Sym(x.as_str().unwrap_or("").into())).collect())
                .unwrap_or_default();
            desc(0x40, vec![Val::Arr(ms)], trim)
        }
        "init" => {
            ty = 1;
            desc(
                0x41,
                vec![
                    Val::Sym(c["mech"].as_str().unwrap_or("PLAIN").into()),
                    if c["resp"].is_array() { Val::Bin(unrle(&c["resp"])) } else { Val::Null },
                    s(&c["host"]),
                ],
                trim,
            )
        }
        "challenge" => {
            ty = 1;
            desc(0x42, vec![Val::Bin(unrle(&c["data"]))], trim)
        }
        "response" => {
            ty = 1;
            desc(0x43, vec![Val::Bin(unrle(&c["data"]))], trim)
        }
        "outcome" => {
            ty = 1;
            desc(0x44, vec![Val::U8(c["code"].as_u64().unwrap_or(0) as u8)], trim)
        }
        _ => Val::Null,
    };
    let mut b = vec![];
    enc(&v, &mut form, &mut b);
    b.extend(payload);
    frame(ty, ch, &b, ext)
}

fn gi(f: &[Val], i: usize) -> Option<u64> {
    match f.get(i) {
        Some(Val::U8(x)) => Some(*x as u64),
        Some(Val::U16(x)) => Some(*x as u64),
        Some(Val::U32(x)) => Some(*x as u64),
        Some(Val::U64(x)) => Some(*x),
        _ => None,
    }
}
fn gb(f: &[Val], i: usize) -> i64 {
    match f.get(i) {
        Some(Val::Bool(true)) => 1,
        Some(Val::Bool(false)) => 0,
        _ => -1,
    }
}
fn gs(f: &[Val], i: usize) -> String {
    match f.get(i) {
        Some(Val::Str(x)) | Some(Val::Sym(x)) => x.clone(),
        _ => String::new(),
    }
}
fn id_or(f: &[Val], i: usize) -> i64 {
    gi(f, i).map(|x| sid(x as u32)).unwrap_or(NONE)
}
fn q_or(f: &[Val], i: usize) -> i64 {
    gi(f, i).map(qty).unwrap_or(-1)
}
/// an address split into its path segments
pub fn segs(a: &str) -> Vec<String> {
    a.split('/').map(|s| s.to_string()).collect()
}

pub fn state_str(v: Option<&Val>) -> String {
    let Some(Val::Desc(d, l)) = v else { return String::new() };
    let (Val::U64(c), Val::List(l)) = (&**d, &**l) else { return "?".into() };
    match c {
        0x23 => format!("rcv:{}", gi(l, 1).unwrap_or(0)),
        0x24 => "acc".into(),
        0x25 => {
            let e = err_str(l.first());
            if e.is_empty() { "rej".into() } else { format!("rej:{e}") }
        }
        0x26 => "rel".into(),
        0x27 => "mod".into(),
        _ => "?".into(),
    }
}
pub fn err_str(v: Option<&Val>) -> String {
    let Some(Val::Desc(d, l)) = v else { return String::new() };
    let (Val::U64(0x1d), Val::List(l)) = (&**d, &**l) else { return "?".into() };
    let d = gs(l, 1);
    if d.is_empty() { gs(l, 0) } else { format!("{}|{}", gs(l, 0), d) }
}
fn term_addr(v: Option<&Val>) -> String {
    let Some(Val::Desc(_, l)) = v else { return String::new() };
    let Val::List(l) = &**l else { return String::new() };
    gs(l, 0)
}

/// decode one complete frame's bytes into an event object
pub fn decode_frame(b: &[u8]) -> Result<Map<String, J>, String> {
    if b.len() < 8 {
        return Err("short".into());
    }
    let doff = b[4] as usize * 4;
    let ty = b[5];
    let ch = u16::from_be_bytes([b[6], b[7]]);
    if doff < 8 || doff > b.len() {
        return Err("doff".into());
    }
    let body = &b[doff..];
    let mut m = Map::new();
    macro_rules! put { ($($k:literal : $v:expr),* $(,)?) => {{ $( m.insert($k.into(), json!($v)); )* }} }
    put!("sz": b.len(), "ch": ch);
    if body.is_empty() {
        put!("f": "empty");
        if ty != 0 {
            return Err("empty non amqp".into());
        }
        return Ok(m);
    }
    let mut r = Rd(body);
    let v = r.val()?;
    let Val::Desc(d, l) = v else { return Err("not described".into()) };
    let (Val::U64(code), Val::List(f)) = (*d, *l) else { return Err("descriptor".into()) };
    let want_ty = if (0x40..=0x44).contains(&code) { 1 } else { 0 };
    if want_ty != ty {
        return Err("frame type".into());
    }
    match code {
        0x10 => put!("f": "open", "cid": gs(&f,0), "host": gs(&f,1),
            "mfs": gi(&f,2).map(qty).unwrap_or(CAP), "chmax": gi(&f,3).unwrap_or(65535), "idle": q_or(&f,4), "off": syms_of(f.get(7)), "des": syms_of(f.get(8))),
        0x11 => put!("f": "begin", "rch": gi(&f,0).map(|x| x as i64).unwrap_or(-1), "noi": id_or(&f,1),
            "iw": q_or(&f,2), "ow": q_or(&f,3), "hmax": gi(&f,4).map(qty).unwrap_or(CAP)),
        0x12 => put!("f": "attach", "name": gs(&f,0), "h": q_or(&f,1),
            "role": if gb(&f,2)==1 {"R"} else {"S"}, "ssm": q_or(&f,3), "rsm": q_or(&f,4),
            "src": term_addr(f.get(5)), "tgt": term_addr(f.get(6)), "tseg": segs(&term_addr(f.get(6))),
            "hassrc": matches!(f.get(5), Some(Val::Desc(..))), "hastgt": matches!(f.get(6), Some(Val::Desc(..))),
            "idc": id_or(&f,9), "mms": q_or(&f,10)),
        0x13 => put!("f": "flow", "nii": id_or(&f,0), "iw": q_or(&f,1), "noi": id_or(&f,2), "ow": q_or(&f,3),
            "h": q_or(&f,4), "dc": id_or(&f,5), "cr": q_or(&f,6), "avail": q_or(&f,7),
            "drain": gb(&f,8)==1, "echo": gb(&f,9)==1),
        0x14 => {
            let tag = match f.get(2) { Some(Val::Bin(t)) => t.clone(), _ => vec![] };
            put!("f": "transfer", "h": q_or(&f,0), "did": id_or(&f,1), "tag": hex(&tag),
            "hastag": matches!(f.get(2), Some(Val::Bin(_))),
            "fmt": q_or(&f,3), "st": gb(&f,4)==1, "more": gb(&f,5)==1, "state": state_str(f.get(7)),
            "resume": gb(&f,8)==1, "ab": gb(&f,9)==1, "body": rle(r.0), "blen": r.0.len())
        }
        0x15 => put!("f": "disp", "role": if gb(&f,0)==1 {"R"} else {"S"}, "first": id_or(&f,1), "last": id_or(&f,2),
            "st": gb(&f,3)==1, "state": match state_str(f.get(4)) { s if s.is_empty() => "none".into(), s => s },
            "sk": state_str(f.get(4)).split(':').next().unwrap_or("")),
        0x16 => put!("f": "detach", "h": q_or(&f,0), "closed": gb(&f,1)==1, "err": err_str(f.get(2))),
        0x17 => put!("f": "end", "err": err_str(f.first())),
        0x18 => put!("f": "close", "err": err_str(f.first())),
        0x40 => {
            let ms: Vec<J> = match f.first() {
                Some(Val::Arr(a)) => a.iter().map(|x| match x { Val::Sym(s) => json!(s), _ => json!("?") }).collect(),
                Some(Val::Sym(s)) => vec![json!(s)],
                _ => vec![],
            };
            put!("f": "mechs", "mechs": ms)
        }
        0x41 => {
            let d = match f.get(1) { Some(Val::Bin(t)) => hex(t), _ => "none".into() };
            put!("f": "init", "mech": gs(&f,0), "resp": d, "host": gs(&f,2))
        }
        0x42 | 0x43 => {
            let d = match f.first() { Some(Val::Bin(t)) => hex(t), _ => "none".into() };
            put!("f": if code==0x42 {"challenge"} else {"response"}, "data": d)
        }
        0x44 => put!("f": "outcome", "code": q_or(&f,0)),
        _ => return Err(format!("descriptor {code:x}")),
    }
    if code != 0x14 && !r.0.is_empty() {
        return Err("trailing bytes after performative".into());
    }
    Ok(m)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
