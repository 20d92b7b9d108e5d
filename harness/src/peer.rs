//! The test peer's own bookkeeping, built only from frames seen on the wire.
use crate::wire::NONE;
use serde_json::{Value as J, json};

#[derive(Clone, Debug, Default)]
pub struct PLink {
    pub name: String,
    /// role of the endpoint under test: "S" or "R"
    pub role: String,
    pub eh: Option<i64>,
    pub mh: Option<i64>,
    pub eatt: bool,
    pub matt: bool,
    pub edet: bool,
    pub mdet: bool,
    // endpoint sends: I receive
    pub dc: i64,
    pub open_del: bool,
    // endpoint receives: I send; limit = dc+credit from its flows
    pub limit: i64,
    pub sent: i64,
    pub part: Option<(i64, bool)>,
    pub mms: i64,
}
#[derive(Clone, Debug, Default)]
pub struct PSess {
    pub ech: Option<i64>,
    pub mch: Option<i64>,
    pub ebegin: bool,
    pub mbegin: bool,
    pub eend: bool,
    pub mend: bool,
    pub nin: i64,  // next transfer id expected from the endpoint
    pub noi: i64,  // my next transfer id (also used for my delivery ids)
    pub did: i64,  // my next delivery id
    pub edid: Option<i64>, // last delivery id seen from the endpoint
    pub links: Vec<PLink>,
    /// unsettled deliveries sent by the endpoint (id, link)
    pub uns: Vec<(i64, usize)>,
    /// my deliveries unsettled
    pub muns: Vec<i64>,
    /// ids of all deliveries seen, of the endpoint and mine
    pub edids: Vec<i64>,
    pub mdids: Vec<i64>,
}
impl PSess {
    pub fn live(&self) -> bool {
        self.ebegin && self.mbegin && !self.eend && !self.mend
    }
}
#[derive(Default, Debug)]
pub struct Peer {
    pub ss: Vec<PSess>,
    pub eclose: bool,
    pub mclose: bool,
    pub empty: usize,
    pub rch: i64,
}

fn i(e: &J, k: &str) -> i64 {
    e[k].as_i64().unwrap_or(-1)
}

impl Peer {
    pub fn by_ech(&self, ch: i64) -> Option<usize> {
        self.ss.iter().rposition(|s| s.ech == Some(ch) && s.ebegin && !s.eend)
    }
    pub fn by_mch(&self, ch: i64) -> Option<usize> {
        self.ss.iter().rposition(|s| s.mch == Some(ch) && s.mbegin && !s.mend)
    }
    pub fn on_out(&mut self, e: &J) {
        let ch = i(e, "ch");
        match e["f"].as_str().unwrap_or("") {
            "empty" => self.empty += 1,
            "close" => self.eclose = true,
            "begin" => {
                let rch = i(e, "rch");
                if rch >= 0 {
                    if let Some(k) = self.ss.iter().rposition(|s| s.mch == Some(rch) && s.mbegin && !s.ebegin) {
                        let s = &mut self.ss[k];
                        s.ech = Some(ch);
                        s.ebegin = true;
                        s.nin = i(e, "noi");
                        return;
                    }
                }
                self.ss.push(PSess { ech: Some(ch), ebegin: true, nin: i(e, "noi"), noi: 1, did: 1, ..Default::default() });
            }
            "end" => {
                if let Some(k) = self.by_ech(ch) {
                    self.ss[k].eend = true;
                }
            }
            "attach" => {
                let Some(k) = self.by_ech(ch) else { return };
                let s = &mut self.ss[k];
                let role = e["role"].as_str().unwrap_or("").to_string();
                let name = e["name"].as_str().unwrap_or("").to_string();
                if let Some(l) = s.links.iter_mut().find(|l| l.name == name && l.role == role && l.matt && !l.eatt && !l.edet) {
                    l.eatt = true;
                    l.eh = Some(i(e, "h"));
                    if role == "S" {
                        let d = e["idc"].as_i64().unwrap_or(0);
                        l.dc = if d == NONE { 0 } else { d };
                    }
                    return;
                }
                let d = e["idc"].as_i64().unwrap_or(0);
                s.links.push(PLink {
                    name,
                    role,
                    eh: Some(i(e, "h")),
                    eatt: true,
                    dc: if d == NONE { 0 } else { d },
                    mms: i(e, "mms"),
                    ..Default::default()
                });
            }
            "detach" => {
                let Some(k) = self.by_ech(ch) else { return };
                let h = i(e, "h");
                if let Some(l) = self.ss[k].links.iter_mut().rev().find(|l| l.eh == Some(h) && l.eatt && !l.edet) {
                    l.edet = true;
                }
            }
            "flow" => {
                let Some(k) = self.by_ech(ch) else { return };
                let h = i(e, "h");
                if let Some(l) = self.ss[k].links.iter_mut().rev().find(|l| l.eh == Some(h) && l.eatt && !l.edet && l.role == "R") {
                    let dc = e["dc"].as_i64().unwrap_or(0);
                    if i(e, "cr") >= 0 {
                        l.limit = if dc == NONE { l.sent } else { dc } + i(e, "cr");
                    }
                }
            }
            "transfer" => {
                let Some(k) = self.by_ech(ch) else { return };
                let h = i(e, "h");
                let s = &mut self.ss[k];
                s.nin += 1;
                if let Some(li) = s.links.iter().rposition(|l| l.eh == Some(h) && l.eatt && !l.edet) {
                    let first = !s.links[li].open_del;
                    let more = e["more"] == true;
                    s.links[li].open_del = more;
                    if first {
                        s.links[li].dc += 1;
                        s.edid = Some(i(e, "did"));
                        s.edids.push(i(e, "did"));
                        if e["st"] != true {
                            s.uns.push((i(e, "did"), li));
                        }
                    }
                }
            }
            "disp" => {
                let Some(k) = self.by_ech(ch) else { return };
                if e["st"] == true {
                    let f = i(e, "first");
                    let l = e["last"].as_i64().filter(|x| *x != NONE).unwrap_or(f);
                    if e["role"] == "R" {
                        self.ss[k].muns.retain(|d| *d < f || *d > l);
                    } else {
                        self.ss[k].uns.retain(|(d, _)| *d < f || *d > l);
                    }
                }
            }
            _ => {}
        }
    }

    pub fn on_in(&mut self, e: &J) {
        let ch = i(e, "ch");
        match e["f"].as_str().unwrap_or("") {
            "close" => self.mclose = true,
            "begin" => {
                let rch = i(e, "rch");
                let noi = i(e, "noi");
                if rch >= 0 {
                    if let Some(k) = self.ss.iter().rposition(|s| s.ech == Some(rch) && s.ebegin && !s.mbegin && !s.eend) {
                        let s = &mut self.ss[k];
                        s.mch = Some(ch);
                        s.mbegin = true;
                        s.noi = noi;
                        s.did = noi;
                        return;
                    }
                    return;
                }
                self.ss.push(PSess { mch: Some(ch), mbegin: true, noi, did: noi, ..Default::default() });
            }
            "end" => {
                if let Some(k) = self.by_mch(ch) {
                    self.ss[k].mend = true;
                }
            }
            "attach" => {
                let Some(k) = self.by_mch(ch) else { return };
                let s = &mut self.ss[k];
                // my role R means the endpoint sends
                let role = if e["role"] == "R" { "S" } else { "R" };
                let name = e["name"].as_str().unwrap_or("").to_string();
                let idc = e["idc"].as_i64().filter(|x| *x != NONE).unwrap_or(0);
                if let Some(l) = s.links.iter_mut().find(|l| l.name == name && l.role == role && l.eatt && !l.matt && !l.edet) {
                    l.matt = true;
                    l.mh = Some(i(e, "h"));
                    l.sent = if role == "R" { idc } else { l.sent };
                    if role == "R" {
                        l.limit = idc;
                    }
                    return;
                }
                s.links.push(PLink {
                    name,
                    role: role.into(),
                    mh: Some(i(e, "h")),
                    matt: true,
                    sent: idc,
                    limit: idc,
                    ..Default::default()
                });
            }
            "detach" => {
                let Some(k) = self.by_mch(ch) else { return };
                let h = i(e, "h");
                if let Some(l) = self.ss[k].links.iter_mut().rev().find(|l| l.mh == Some(h) && l.matt && !l.mdet) {
                    l.mdet = true;
                }
            }
            "transfer" => {
                let Some(k) = self.by_mch(ch) else { return };
                let h = i(e, "h");
                let s = &mut self.ss[k];
                s.noi += 1;
                if let Some(l) = s.links.iter_mut().rev().find(|l| l.mh == Some(h) && l.matt && !l.mdet) {
                    let did = i(e, "did");
                    let st = e["st"] == true;
                    let cur = match l.part {
                        Some(p) => p,
                        None => {
                            s.did = s.did.max(did + 1);
                            s.mdids.push(did);
                            l.sent += 1;
                            (did, st)
                        }
                    };
                    if e["ab"] == true {
                        l.part = None;
                    } else if e["more"] == true {
                        l.part = Some(cur);
                    } else {
                        l.part = None;
                        if !cur.1 {
                            s.muns.push(cur.0);
                        }
                    }
                }
            }
            "disp" => {
                let Some(k) = self.by_mch(ch) else { return };
                if e["st"] == true {
                    let f = i(e, "first");
                    let l = e["last"].as_i64().filter(|x| *x != NONE).unwrap_or(f);
                    if e["role"] == "R" {
                        self.ss[k].uns.retain(|(d, _)| *d < f || *d > l);
                    } else {
                        self.ss[k].muns.retain(|d| *d < f || *d > l);
                    }
                }
            }
            _ => {}
        }
    }

    /// Resolve symbolic references used by specification-generated schedules.
    ///  "sx": session index (order of begin) -> "ch" (my channel); a begin reply gets "rch"
    ///  "lx": [name, endpoint role] -> "h" and "ch"
    ///  "auto": fill nii / dc (minus "nlag" / "dlag") for flow; did for transfer
    ///  "dx": n-th unsettled delivery of the session -> first (and "dn" -> last)
    pub fn resolve(&self, c: &J) -> J {
        let mut c = c.clone();
        if c["c"] != "in" {
            return c;
        }
        let f = c["f"].as_str().unwrap_or("").to_string();
        let mut si = None;
        if let Some(k) = c["sx"].as_u64() {
            let k = k as usize;
            si = Some(k);
            if let Some(s) = self.ss.get(k) {
                if f == "begin" {
                    match s.ech {
                        Some(e) if !s.mbegin && !s.eend => c["rch"] = json!(e),
                        _ => c["skip"] = json!(true),
                    }
                } else if let (Some(m), false) = (s.mch, s.mend) {
                    c["ch"] = json!(m);
                } else {
                    c["skip"] = json!(true);
                }
                for (a, b, d) in [("d0", "first", &s.edids), ("d1", "last", &s.edids), ("m0", "first", &s.mdids), ("m1", "last", &s.mdids)] {
                    if let Some(n) = c[a].as_u64() {
                        match d.get(n as usize) {
                            Some(x) => c[b] = json!(x),
                            None => c["skip"] = json!(true),
                        }
                    }
                }
            } else {
                c["skip"] = json!(true);
            }
        }
        // channels and names are used again once both ends have let go of them
        if c["legal"] == true && f == "begin" && self.ss.iter().any(|s| s.mch == c["ch"].as_i64() && !(s.mend && s.eend)) {
            c["skip"] = json!(true);
        }
        if c["legal"] == true && f == "attach" {
            let role = if c["role"] == "R" { "S" } else { "R" };
            let name = c["name"].as_str().unwrap_or("");
            if let Some(s) = si.and_then(|k| self.ss.get(k)) {
                let busy = s.links.iter().any(|l| {
                    l.matt && !(l.mdet && l.edet) && (l.mh == c["h"].as_i64() || l.name == name && l.role == role)
                });
                let late = s.links.iter().any(|l| l.name == name && l.role == role && l.matt && l.mdet && !l.edet);
                let asked = s.links.iter().any(|l| l.name == name && l.role == role && l.eatt && !l.matt && !l.edet);
                if busy || late || (c["ans"] == true && !asked) {
                    c["skip"] = json!(true);
                }
            }
        }
        let mut lnk = None;
        if let Some(a) = c["lx"].as_array() {
            let name = a[0].as_str().unwrap_or("");
            let role = a[1].as_str().unwrap_or("");
            let inst = a.get(2).and_then(|x| x.as_u64());
            if let Some(s) = si.and_then(|k| self.ss.get(k)) {
                let it: Vec<usize> =
                    s.links.iter().enumerate().filter(|(_, l)| l.name == name && l.role == role).map(|(i, _)| i).collect();
                let sel = match inst {
                    Some(n) => it.get(n as usize),
                    None => it.last(),
                };
                if sel.is_none() {
                    c["skip"] = json!(true);
                }
                if let Some(li) = sel {
                    lnk = Some(*li);
                    if f != "attach" {
                        match s.links[*li].mh {
                            Some(h) if !s.links[*li].mdet => c["h"] = json!(h),
                            _ => c["skip"] = json!(true),
                        }
                    }
                }
            }
        }
        if c["auto"] == true {
            if let Some(s) = si.and_then(|k| self.ss.get(k)) {
                if f == "flow" {
                    c["nii"] = json!(s.nin - c["nlag"].as_i64().unwrap_or(0));
                    c["noi"] = json!(s.noi);
                    if let Some(l) = lnk {
                        if s.links[l].role == "S" {
                            c["dc"] = json!(s.links[l].dc - c["dlag"].as_i64().unwrap_or(0));
                        }
                    }
                }
                if f == "transfer" {
                    if let Some(l) = lnk {
                        let l = &s.links[l];
                        let cont = l.part.is_some();
                        // a first frame needs credit, a continuation needs a first frame
                        if cont == c["tag"].is_array() || (!cont && l.sent >= l.limit) {
                            c["skip"] = json!(true);
                        }
                        if !cont {
                            c["did"] = json!(s.did);
                        }
                    }
                }
                if f == "disp" {
                    if let Some(n) = c["dx"].as_u64() {
                        if let Some((d, _)) = s.uns.get(n as usize) {
                            c["first"] = json!(d);
                        }
                    }
                }
            }
        }
        c
    }
}
