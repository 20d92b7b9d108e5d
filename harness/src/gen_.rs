//! Seeded adaptive random walks: the peer and the application act at random, steered by what is
//! currently possible.  Every command executed is recorded, so a walk can be replayed verbatim.
use serde_json::{Value as J, json};

use crate::exec::{LinkObj, World};
use crate::peer::PLink;
use crate::wire::NONE;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize }
    }
    pub fn p(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> Option<&'a T> {
        if v.is_empty() { None } else { Some(&v[self.below(v.len())]) }
    }
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
}

/// weights of the action classes
#[derive(Clone)]
pub struct Prof {
    pub name: &'static str,
    pub w: Vec<(&'static str, usize)>,
    pub sessions: usize,
    pub max_sessions: usize,
    pub slinks: usize,
    pub rlinks: usize,
    pub max_links: usize,
    pub hold: usize,
    pub nq: usize,
    pub router: bool,
    pub defer: usize,
    pub ctlerr: usize,
    pub steps: usize,
    pub bigwin: bool,
    pub chsmall: bool,
    pub remote_attach: usize,
    pub cli: Option<bool>,
}

pub fn profile(name: &str) -> Prof {
    let base = Prof {
        name: "mix",
        w: vec![],
        sessions: 1,
        max_sessions: 2,
        slinks: 1,
        rlinks: 1,
        max_links: 4,
        hold: 12,
        nq: 12,
        router: false,
        defer: 0,
        ctlerr: 0,
        steps: 45,
        bigwin: false,
        chsmall: false,
        remote_attach: 40,
        cli: None,
    };
    let b = |name: &'static str, w: &[(&'static str, usize)]| Prof { name, w: w.to_vec(), ..base.clone() };
    match name {
        "snd" => Prof {
            slinks: 2,
            rlinks: 0,
            max_links: 3,
            ..b(
                "snd",
                &[("send", 34), ("flow", 24), ("sflow", 12), ("ready", 4), ("oncredit", 2), ("cancel", 9), ("wait", 4), ("pdisp", 6), ("ddrop", 3), ("setmax", 1), ("pdetach", 1), ("closel", 1)],
            )
        },
        "big" => Prof {
            slinks: 2,
            rlinks: 0,
            max_links: 3,
            ..b("big", &[("sendbig", 30), ("send", 8), ("flow", 20), ("sflow", 16), ("cancel", 5), ("wait", 2), ("pdisp", 3), ("setmax", 2)])
        },
        "dup" => Prof {
            // messages both ways, the outgoing ones in several frames
            slinks: 1,
            rlinks: 1,
            max_links: 3,
            ..b(
                "dup",
                &[("sendbig", 14), ("send", 6), ("flow", 10), ("sflow", 8), ("ptransfer", 20), ("recv", 10), ("getdel", 3), ("credit", 8), ("settle", 6), ("upd", 2), ("ddrop", 3), ("wait", 3), ("pdisp", 4), ("psettle", 2), ("pabort", 2), ("cancel", 2), ("pdetach", 1)],
            )
        },
        "rcv" => Prof {
            slinks: 0,
            rlinks: 2,
            max_links: 3,
            ..b(
                "rcv",
                &[("ptransfer", 44), ("recv", 16), ("getdel", 5), ("hasdel", 3), ("credit", 9), ("settle", 8), ("upd", 3), ("ddrop", 3), ("cancel", 3), ("psettle", 4), ("rwait", 4), ("rpeek", 2), ("setmax", 2), ("pdetach", 1), ("closel", 1), ("detach", 2), ("sflow", 2), ("overlimit", 2), ("oversize", 2), ("pabort", 3)],
            )
        },
        "disp" => Prof {
            slinks: 2,
            rlinks: 1,
            sessions: 2,
            bigwin: true,
            ..b(
                "disp",
                &[("send", 24), ("flow", 8), ("pdisp", 22), ("wait", 14), ("rstate", 5), ("ddrop", 6), ("settle", 8), ("upd", 4), ("ptransfer", 8), ("recv", 5), ("credit", 2), ("psettle", 6), ("rwait", 5), ("rpeek", 2), ("cancel", 4), ("pdetach", 1), ("closel", 1), ("panswer", 2)],
            )
        },
        "link" => Prof {
            max_sessions: 2,
            sessions: 2,
            max_links: 6,
            defer: 10,
            ctlerr: 6,
            bigwin: true,
            ..b(
                "link",
                &[("att", 16), ("pattach", 16), ("panswer", 24), ("pdetach", 16), ("closel", 12), ("detach", 4), ("send", 6), ("flow", 6), ("ptransfer", 6), ("recv", 4), ("credit", 3), ("cancel", 3), ("look", 9), ("onclosel", 2), ("ctlgo", 10)],
            )
        },
        "sess" => Prof {
            sessions: 2,
            max_sessions: 5,
            slinks: 1,
            rlinks: 0,
            chsmall: true,
            bigwin: true,
            ..b(
                "sess",
                &[("begin", 18), ("pbegin", 14), ("panswer", 24), ("end", 14), ("pend", 14), ("send", 8), ("flow", 8), ("att", 4), ("pattach", 3), ("wait", 3), ("pdisp", 3), ("getsess", 4), ("cancel", 2), ("ptransfer", 2), ("recv", 2)],
            )
        },
        "close" => Prof {
            sessions: 2,
            slinks: 1,
            rlinks: 1,
            steps: 30,
            defer: 4,
            ..b(
                "close",
                &[("svcrdy", 4), ("send", 14), ("flow", 8), ("recv", 6), ("ready", 4), ("oncredit", 3), ("wait", 8), ("ptransfer", 8), ("pdisp", 5), ("settle", 2), ("begin", 4), ("att", 4), ("panswer", 5), ("closel", 3), ("pdetach", 3), ("end", 3), ("pend", 3), ("close", 3), ("pclose", 3), ("eof", 2), ("force", 1), ("onclosec", 3), ("onclosel", 2), ("sflow", 3), ("cancel", 2), ("settle", 2), ("ddrop", 2), ("ctlgo", 3), ("rwait", 4), ("credit", 2), ("detach", 2)],
            )
        },
        "ctlq" => Prof {
            // several control events wait at once and are answered together
            sessions: 1,
            slinks: 1,
            rlinks: 0,
            defer: 90,
            ctlerr: 5,
            nq: 40,
            max_links: 6,
            steps: 45,
            ..b(
                "ctlq",
                &[("flow", 30), ("pattach", 16), ("ctlgo", 14), ("ctlmode", 8), ("send", 5), ("pdetach", 3), ("ptransfer", 2), ("closel", 2), ("panswer", 3), ("att", 2)],
            )
        },
        "ctl" => Prof {
            sessions: 1,
            slinks: 1,
            rlinks: 1,
            defer: 45,
            ctlerr: 12,
            max_sessions: 3,
            ..b(
                "ctl",
                &[("pattach", 14), ("flow", 16), ("pdetach", 9), ("ctlgo", 26), ("svcrdy", 7), ("send", 10), ("panswer", 8), ("pend", 3), ("pbegin", 3), ("ptransfer", 5), ("closel", 3), ("end", 2), ("ctlmode", 6), ("pclose", 1), ("close", 1), ("recv", 3), ("eof", 1), ("msggo", 5), ("credit", 2), ("begin", 1), ("att", 3)],
            )
        },
        "router" => Prof {
            sessions: 1,
            slinks: 0,
            rlinks: 2,
            router: true,
            cli: Some(false),
            remote_attach: 100,
            max_links: 5,
            ..b(
                "router",
                &[("ptransfer", 48), ("hndgo", 18), ("hndmode", 6), ("hndrdy", 6), ("pattach", 8), ("pdetach", 5), ("pend", 1), ("pbegin", 2), ("psettle", 3), ("pabort", 2), ("panswer", 4), ("oversize", 1)],
            )
        },
        "pub" => Prof {
            // server with a publish service of its own
            sessions: 1,
            slinks: 0,
            rlinks: 2,
            cli: Some(false),
            remote_attach: 85,
            max_links: 6,
            max_sessions: 3,
            defer: 25,
            ctlerr: 6,
            ..b(
                "pub",
                &[("ptransfer", 34), ("msggo", 30), ("svcrdy", 8), ("recv", 8), ("getdel", 6), ("settle", 4), ("pattach", 12), ("pdetach", 9), ("closel", 6), ("detach", 3), ("pend", 2), ("end", 2), ("pbegin", 3), ("pabort", 4), ("ctlgo", 14), ("ctlmode", 4), ("panswer", 10), ("att", 3), ("credit", 2), ("oversize", 1), ("eof", 1)],
            )
        },
        "rstream" => Prof {
            // long streams through the router: credit must be replenished
            sessions: 1,
            slinks: 0,
            rlinks: 1,
            router: true,
            cli: Some(false),
            remote_attach: 100,
            hold: 45,
            nq: 25,
            steps: 160,
            max_links: 2,
            ..b("rstream", &[("ptransfer", 84), ("pabort", 6), ("hndgo", 6), ("hndmode", 2), ("hndrdy", 2), ("psettle", 2)])
        },
        "mal" => Prof {
            sessions: 1,
            slinks: 1,
            rlinks: 1,
            steps: 30,
            ..b(
                "mal",
                &[("mal", 14), ("send", 14), ("flow", 10), ("recv", 8), ("wait", 8), ("ptransfer", 14), ("pdisp", 8), ("ready", 4), ("settle", 4), ("closel", 2), ("pdetach", 2), ("panswer", 4), ("att", 3), ("credit", 3), ("begin", 2)],
            )
        },
        _ => Prof {
            sessions: 2,
            max_sessions: 4,
            max_links: 5,
            defer: 6,
            ctlerr: 2,
            steps: 60,
            ..b(
                "mix",
                &[("send", 18), ("sendbig", 4), ("flow", 12), ("sflow", 6), ("pdisp", 8), ("wait", 7), ("ptransfer", 14), ("recv", 8), ("credit", 4), ("settle", 5), ("upd", 2), ("ddrop", 3), ("psettle", 3), ("rwait", 2), ("rpeek", 1), ("att", 4), ("pattach", 4), ("panswer", 8), ("pdetach", 3), ("closel", 3), ("begin", 2), ("pbegin", 2), ("end", 1), ("pend", 1), ("cancel", 5), ("ready", 2), ("oncredit", 1), ("setmax", 1), ("look", 1), ("ctlgo", 6), ("msggo", 3), ("detach", 1), ("pabort", 2), ("hasdel", 1), ("getdel", 2), ("rstate", 1), ("getsess", 1)],
            )
        },
    }
}

pub fn mk_walk_cfg(pr: &Prof, r: &mut Rng) -> J {
    let cli = pr.cli.unwrap_or_else(|| r.p(40));
    let chl = if pr.chsmall { r.of(&[0i64, 1, 2, 3, 1024]) } else { r.of(&[4i64, 8, 1024]) };
    let chr = if pr.chsmall { r.of(&[0i64, 1, 2, 3, 65535]) } else { r.of(&[7i64, 65535]) };
    let rm = if pr.name == "big" || pr.name == "dup" {
        r.of(&[512i64, 600, 1024, 2048, 2049, 2500, 3000, 4096, 65536, 4294967295])
    } else {
        r.of(&[512i64, 1024, 4096, 65536])
    };
    let mut remote = json!({"chmax": chr, "mfs": rm});
    if r.p(20) {
        remote.as_object_mut().unwrap().remove("chmax");
    }
    if r.p(20) {
        remote.as_object_mut().unwrap().remove("mfs");
    }
    json!({"side": if cli {"cli"} else {"srv"}, "pub": if pr.router {"router"} else {"raw"},
        "local": {"chmax": chl, "mfs": r.of(&[4096i64, 65535])}, "remote": remote})
}

pub struct Walk {
    pub w: World,
    pub r: Rng,
    pub pr: Prof,
    names: usize,
    dead: bool,
    body: u8,
    /// local attaches that may not be on the wire yet
    fresh: Vec<(i64, String, String)>,
    pub chlim: i64,
    pub mfs: i64,
}

impl Walk {
    pub fn new(w: World, r: Rng, pr: Prof) -> Walk {
        Walk { w, r, pr, names: 0, dead: false, body: 0, fresh: vec![], chlim: 0, mfs: 512 }
    }

    async fn go(&mut self, mut c: J) {
        if c["c"] == "in" {
            if self.r.p(self.pr.hold) {
                c["hold"] = json!(true);
            } else if self.r.p(5) {
                c["split"] = json!(1 + self.r.below(20));
            }
            if c["form"].is_null() && self.r.p(30) {
                c["form"] = json!(self.r.next() & 0xffff);
            }
            if self.r.p(5) {
                c["ext"] = json!(1);
            }
            if self.r.p(10) {
                c["notrim"] = json!(true);
            }
        }
        if self.r.p(self.pr.nq) {
            c["nq"] = json!(true);
        }
        self.w.step(&c).await;
        if c["nq"] != true {
            self.fresh.clear();
        }
    }

    fn uids(&self, snd: bool) -> Vec<i64> {
        let o = self.w.o.borrow();
        o.links
            .iter()
            .filter(|(_, l)| matches!((l, snd), (LinkObj::S(_), true) | (LinkObj::R(_), false)))
            .map(|(u, _)| *u)
            .collect()
    }
    /// prefer live links
    fn pick_link(&mut self, snd: bool) -> Option<i64> {
        let v = self.uids(snd);
        let live: Vec<i64> = {
            let o = self.w.o.borrow();
            v.iter()
                .copied()
                .filter(|u| match &o.links[u] {
                    LinkObj::S(l) => !l.is_closed(),
                    LinkObj::R(l) => !l.is_closed(),
                })
                .collect()
        };
        if !live.is_empty() && self.r.p(92) { self.r.pick(&live).copied() } else { self.r.pick(&v).copied() }
    }
    fn pick_sess(&mut self) -> Option<i64> {
        let v: Vec<i64> = self.w.o.borrow().sessions.keys().copied().collect();
        if v.len() > 2 && self.r.p(60) { v.last().copied() } else { self.r.pick(&v).copied() }
    }
    fn live_ps(&mut self) -> Option<usize> {
        let v: Vec<usize> = (0..self.w.peer.ss.len()).filter(|k| self.w.peer.ss[*k].live()).collect();
        self.r.pick(&v).copied()
    }
    fn plinks(&self, f: impl Fn(&PLink) -> bool) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (k, s) in self.w.peer.ss.iter().enumerate() {
            if s.live() {
                for (i, l) in s.links.iter().enumerate() {
                    if f(l) {
                        v.push((k, i));
                    }
                }
            }
        }
        v
    }
    fn free_handle(&mut self, k: usize) -> i64 {
        // both sides must have detached before a conforming peer reuses its handle
        let used: Vec<i64> = self.w.peer.ss[k]
            .links
            .iter()
            .filter(|l| !(l.mdet && l.edet) && !(l.matt && l.edet && l.mdet))
            .filter_map(|l| l.mh)
            .collect();
        for _ in 0..20 {
            let h = self.r.below(7) as i64;
            if !used.contains(&h) {
                return h;
            }
        }
        (7..).find(|h| !used.contains(h)).unwrap()
    }
    fn free_channel(&mut self) -> i64 {
        let used: Vec<i64> =
            self.w.peer.ss.iter().filter(|s| s.mbegin && !(s.mend && s.eend)).filter_map(|s| s.mch).collect();
        for _ in 0..20 {
            let h = self.r.below(6) as i64;
            if !used.contains(&h) {
                return h;
            }
        }
        (6..).find(|h| !used.contains(h)).unwrap()
    }
    fn win(&mut self) -> i64 {
        if self.pr.bigwin { self.r.of(&[50i64, 1000, 4294967295]) } else { self.r.of(&[0i64, 1, 2, 3, 5, 10, 1000]) }
    }
    fn name(&mut self) -> String {
        // a small pool so that names get reused
        let n = self.r.below(4);
        self.names += 1;
        format!("n{n}")
    }
    /// is this name free for (session, endpoint role)?  both directions must be detached
    fn name_free(&self, k: usize, name: &str, role: &str) -> bool {
        !self.w.peer.ss[k].links.iter().any(|l| {
            l.name == name && l.role == role && !((l.edet || !l.eatt) && (l.mdet || !l.matt) && (l.edet || l.mdet))
        })
    }
    fn sess_peer_idx(&self, s: i64) -> Option<usize> {
        let o = self.w.o.borrow();
        let se = o.sessions.get(&s)?;
        let ch = se.local_channel_id() as i64;
        let rch = se.remote_channel_id() as i64;
        drop(o);
        self.w.peer.ss.iter().rposition(|s| s.ech == Some(ch) && s.mch == Some(rch))
    }

    pub async fn setup(&mut self) {
        let n = self.pr.sessions;
        for _ in 0..n {
            if self.r.p(60) {
                self.w.step(&json!({"c":"op","k":"begin"})).await;
                self.panswer(true).await;
            } else {
                self.pbegin().await;
                self.learn().await;
            }
        }
        for role in ["S", "R"] {
            let n = if role == "S" { self.pr.slinks } else { self.pr.rlinks };
            for _ in 0..n {
                if self.r.p(self.pr.remote_attach) {
                    self.pattach(Some(role)).await;
                } else if let Some(s) = self.pick_sess() {
                    self.att(s, role).await;
                    self.panswer(true).await;
                }
            }
        }
        self.w.quiesce().await;
        // initial credit
        let ls = self.plinks(|l| l.role == "S" && l.eatt && l.matt && !l.edet && !l.mdet);
        for (k, i) in ls {
            if self.r.p(80) {
                self.flow_link(k, i, false).await;
            }
        }
        for u in self.uids(false) {
            if self.r.p(80) && !self.pr.router {
                let n = self.r.of(&[1, 2, 3, 10, 50]);
                self.w.step(&json!({"c":"op","k":"credit","ln":u,"n":n})).await;
            }
        }
    }

    /// make the application learn about remote sessions
    async fn learn(&mut self) {
        let chs: Vec<i64> = self.w.peer.ss.iter().filter(|s| s.live()).filter_map(|s| s.ech).collect();
        for ch in chs {
            let known = self.w.o.borrow().sessions.values().any(|s| s.local_channel_id() as i64 == ch);
            if !known {
                self.w.step(&json!({"c":"op","k":"getsess","h":ch})).await;
            }
        }
    }

    async fn pbegin(&mut self) {
        // a peer that keeps to the negotiated channel limit, most of the time
        let open = self.w.peer.ss.iter().filter(|s| !(s.eend && s.mend)).count() as i64;
        if open > self.chlim && !self.r.p(3) {
            return;
        }
        let ch = self.free_channel();
        let iw = self.win();
        let noi = self.r.of(&[1i64, 0, -2, 100]);
        self.go(json!({"c":"in","f":"begin","ch":ch,"noi":noi,"iw":iw,"ow":1000})).await;
    }

    async fn att(&mut self, s: i64, role: &str) {
        let name = self.name();
        if let Some(k) = self.sess_peer_idx(s) {
            if !self.name_free(k, &name, role) {
                return;
            }
        }
        let key = (s, name.clone(), role.to_string());
        if self.fresh.contains(&key) {
            return;
        }
        let mut c = json!({"c":"op","k":"att","s":s,"role":role,"name":name,"addr": if self.r.p(30) {"n0"} else {"addr"}});
        if self.r.p(30) {
            c["mms"] = json!(self.r.of(&[0, 16, 1000, 300000, (1u64 << 32) + 16]));
        }
        if role == "S" && self.r.p(20) {
            c["idc"] = json!(self.r.of(&[0i64, 3, -2]));
        }
        self.fresh.push(key);
        self.go(c).await;
    }

    async fn pattach(&mut self, role: Option<&str>) {
        let Some(k) = self.live_ps() else { return };
        if self.w.peer.ss[k].links.iter().filter(|l| !l.edet || !l.mdet).count() >= self.pr.max_links {
            return;
        }
        let role = match role {
            Some(r) => r,
            None => {
                if self.pr.router || self.r.p(50) {
                    "R"
                } else {
                    "S"
                }
            }
        };
        let name = self.name();
        if !self.name_free(k, &name, role) {
            return;
        }
        let h = self.free_handle(k);
        let ch = self.w.peer.ss[k].mch.unwrap();
        let mut c = json!({"c":"in","f":"attach","ch":ch,"name":name,"h":h,"role": if role=="S" {"R"} else {"S"}});
        if role == "R" {
            c["idc"] = json!(self.r.of(&[0i64, 0, 4, -2]));
        } else if self.r.p(15) {
            c["idc"] = json!(2);
        }
        if self.r.p(25) {
            c["mms"] = json!(self.r.of(&[0i64, 1, 32, 1000, (1 << 32) + 3]));
        }
        if self.pr.router {
            let a = self.r.of(&["a", "b/x", "b/y", "zz", "a", "b/x"]);
            c["tgt"] = json!(a);
            if self.r.p(4) {
                c.as_object_mut().unwrap().remove("tgt");
            }
        } else {
            c["src"] = json!(self.r.of(&["n0", "addr", "n1"]));
            c["tgt"] = json!("t");
        }
        self.go(c).await;
    }

    /// answer whatever the endpoint is waiting for
    async fn panswer(&mut self, clean: bool) {
        let mut todo = vec![];
        for (k, s) in self.w.peer.ss.iter().enumerate() {
            if s.ebegin && !s.mbegin && !s.eend {
                todo.push((0, k, 0));
            } else if s.ebegin && s.mbegin && s.eend && !s.mend {
                todo.push((1, k, 0));
            } else if s.live() {
                for (i, l) in s.links.iter().enumerate() {
                    if l.eatt && !l.matt && !l.edet {
                        todo.push((2, k, i));
                    }
                    if l.eatt && l.edet && !l.mdet && l.matt {
                        todo.push((3, k, i));
                    }
                    if l.eatt && l.edet && !l.mdet && !l.matt {
                        todo.push((4, k, i));
                    }
                }
            }
        }
        let Some(&(t, k, i)) = self.r.pick(&todo) else { return };
        match t {
            0 => {
                let ch = self.free_channel();
                let iw = self.win();
                let noi = self.r.of(&[1i64, 0, -2, 7]);
                let rch = self.w.peer.ss[k].ech.unwrap();
                self.go(json!({"c":"in","f":"begin","ch":ch,"rch":rch,"noi":noi,"iw":iw,"ow":1000})).await;
            }
            1 => {
                let ch = self.w.peer.ss[k].mch.unwrap();
                let mut c = json!({"c":"in","f":"end","ch":ch});
                if self.r.p(20) {
                    c["err"] = json!("x:end");
                }
                self.go(c).await;
            }
            2 | 4 => {
                let h = self.free_handle(k);
                let ch = self.w.peer.ss[k].mch.unwrap();
                let l = self.w.peer.ss[k].links[i].clone();
                let mut c = json!({"c":"in","f":"attach","ch":ch,"name":l.name,"h":h,"role": if l.role=="S" {"R"} else {"S"},"src":"s","tgt":"t"});
                if l.role == "R" {
                    c["idc"] = json!(self.r.of(&[0i64, 0, 4, -2]));
                }
                if self.r.p(30) {
                    c["mms"] = json!(self.r.of(&[0i64, 1, 32, 1000, (1 << 32) + 3]));
                }
                let refuse = !clean && t == 2 && self.r.p(20);
                if refuse {
                    c[if l.role == "S" { "tgt" } else { "src" }] = J::Null;
                }
                if refuse || t == 4 {
                    c["hold"] = json!(true);
                }
                if clean {
                    self.w.step(&c).await;
                } else {
                    self.go(c).await;
                }
                if refuse || t == 4 {
                    let mut d = json!({"c":"in","f":"detach","ch":ch,"h":h,"closed":true});
                    if refuse {
                        d["err"] = json!("x:refused");
                    }
                    self.w.step(&d).await;
                }
            }
            _ => {
                let ch = self.w.peer.ss[k].mch.unwrap();
                let h = self.w.peer.ss[k].links[i].mh.unwrap();
                let mut c = json!({"c":"in","f":"detach","ch":ch,"h":h,"closed":true});
                if self.r.p(20) {
                    c["err"] = json!("x:det");
                }
                self.go(c).await;
            }
        }
    }

    async fn flow_link(&mut self, k: usize, i: usize, nq: bool) {
        let s = self.w.peer.ss[k].clone();
        let l = s.links[i].clone();
        let lag = if self.r.p(15) { self.r.below(3) as i64 } else { 0 };
        let nlag = if self.r.p(15) { self.r.below(3) as i64 } else { 0 };
        let cr = self.r.of(&[0i64, 1, 1, 2, 3, 5, 10, 4294967295]);
        let iw = self.win().max(if self.r.p(70) { 3 } else { 0 });
        let mut c = json!({"c":"in","f":"flow","ch":s.mch.unwrap(),"nii":s.nin - nlag,"iw":iw,"noi":s.noi,"ow":1000,
            "h":l.mh.unwrap(),"dc":l.dc - lag,"cr":cr});
        if self.r.p(12) {
            c["echo"] = json!(true);
        }
        if nq {
            c["nq"] = json!(true);
        }
        self.go(c).await;
    }

    fn mkbody(&mut self, n: usize) -> J {
        self.body = self.body.wrapping_add(1);
        if n == 0 {
            return json!([]);
        }
        let b = self.body;
        if n > 4 { json!([[b, n / 2], [b.wrapping_add(101), n - n / 2]]) } else { json!([[b, n]]) }
    }

    pub async fn run(&mut self) {
        self.setup().await;
        let steps = self.pr.steps / 2 + self.r.below(self.pr.steps);
        for _ in 0..steps {
            if self.w.tmo || (self.dead && self.r.p(15)) {
                break;
            }
            let tot: usize = self.pr.w.iter().map(|x| x.1).sum();
            let mut x = self.r.below(tot);
            let mut a = "send";
            for (k, w) in &self.pr.w {
                if x < *w {
                    a = k;
                    break;
                }
                x -= w;
            }
            if self.pr.defer > 0 && self.r.p(6) {
                self.ctlmode().await;
            }
            self.act(a).await;
            if self.r.p(10) {
                self.learn().await;
            }
        }
        self.windup().await;
    }

    async fn ctlmode(&mut self) {
        let k = self.r.of(&["AttachSender", "AttachReceiver", "Flow", "RemoteDetachSender", "RemoteDetachReceiver", "RemoteSessionEnded", "*"]);
        let m = if self.r.p(self.pr.defer) {
            "defer"
        } else if self.r.p(self.pr.ctlerr) && k != "*" {
            "err:c:err"
        } else {
            "ok"
        };
        self.w.step(&json!({"c":"ctlmode","k":k,"m":m,"nq":true})).await;
    }

    /// settle everything down at the end: answer outstanding controls, close, check that nothing hangs
    async fn windup(&mut self) {
        self.w.step(&json!({"c":"q"})).await;
        for k in ["AttachSender", "AttachReceiver", "Flow", "RemoteDetachSender", "RemoteDetachReceiver", "RemoteSessionEnded", "*"] {
            if self.w.o.borrow().ctl_mode.contains_key(k) {
                self.w.step(&json!({"c":"ctlmode","k":k,"m":"ok","nq":true})).await;
            }
        }
        for k in ["ctl", "pub"] {
            if self.w.o.borrow().svc_rdy.get(k).is_some_and(|m| m == "hold") {
                self.w.step(&json!({"c":"svcrdy","k":k,"m":"ok","nq":true})).await;
            }
        }
        self.w.step(&json!({"c":"q"})).await;
        if self.w.o.borrow().hnd_rdy != "ok" {
            self.w.step(&json!({"c":"hndrdy","m":"ok"})).await;
        }
        for _ in 0..60 {
            let (c, m, h) = {
                let o = self.w.o.borrow();
                (o.ctl_wait.len(), o.msg_wait.len(), o.hnd_wait.len())
            };
            if c > 0 {
                self.w.step(&json!({"c":"ctlgo","i":0,"m":"ok"})).await;
            } else if m > 0 {
                self.w.step(&json!({"c":"msggo","i":0,"m":"ok"})).await;
            } else if h > 0 {
                self.w.step(&json!({"c":"hndgo","i":0,"m":"acc"})).await;
            } else {
                break;
            }
        }
        match self.r.below(6) {
            0 => {
                // the peer grants everything
                let ls = self.plinks(|l| l.role == "S" && l.eatt && l.matt && !l.edet && !l.mdet);
                for (k, i) in ls {
                    let s = self.w.peer.ss[k].clone();
                    let l = s.links[i].clone();
                    self.w
                        .step(&json!({"c":"in","f":"flow","ch":s.mch.unwrap(),"nii":s.nin,"iw":5000,"noi":s.noi,"ow":1000,"h":l.mh.unwrap(),"dc":l.dc,"cr":500}))
                        .await;
                }
            }
            1 => {
                for _ in 0..12 {
                    self.panswer(true).await;
                }
            }
            2 => self.w.step(&json!({"c":"in","f":"close","ch":0})).await,
            3 => self.w.step(&json!({"c":"eof"})).await,
            4 => self.w.step(&json!({"c":"op","k":"force"})).await,
            _ => {
                self.w.step(&json!({"c":"op","k":"close"})).await;
                self.w.step(&json!({"c":"in","f":"close","ch":0})).await;
            }
        }
        self.w.step(&json!({"c":"q"})).await;
    }

    async fn act(&mut self, a: &str) {
        match a {
            "send" | "sendbig" => {
                let Some(u) = self.pick_link(true) else { return };
                let big = a == "sendbig";
                let n = if big {
                    self.r.of(&[400usize, 480, 500, 511, 512, 513, 1000, 1024, 1025, 2000, 2040, 2048, 2049, 3000, 5000, 9000])
                        + self.r.below(3)
                } else {
                    self.r.of(&[1usize, 2, 8, 20, 33, 100, 0])
                };
                let body = self.mkbody(n);
                let mut c = json!({"c":"op","k":"send","ln":u,"body":body});
                if self.r.p(25) {
                    c["st"] = json!(true);
                }
                if self.r.p(25) {
                    let t = if big { self.r.of(&[1usize, 8, 32]) } else { self.r.of(&[1usize, 4, 32]) };
                    c["tag"] = json!([[self.body, t]]);
                }
                if self.r.p(20) {
                    c["fmt"] = json!(self.r.of(&[0, 1, 77]));
                }
                self.go(c).await;
            }
            "flow" => {
                let early = self.plinks(|l| l.role == "S" && !l.eatt && l.matt && !l.mdet);
                if self.r.p(40) && let Some(&(k, i)) = self.r.pick(&early) {
                    // credit before the attach is answered
                    let s = self.w.peer.ss[k].clone();
                    let iw = self.win();
                    let cr = self.r.of(&[0i64, 1, 2, 5, 4294967295]);
                    let c = json!({"c":"in","f":"flow","ch":s.mch.unwrap(),"nii":s.nin,"iw":iw,"noi":s.noi,"ow":1000,"h":s.links[i].mh.unwrap(),"cr":cr});
                    self.go(c).await;
                    return;
                }
                let v = self.plinks(|l| l.role == "S" && l.eatt && l.matt && !l.mdet);
                let Some(&(k, i)) = self.r.pick(&v) else { return };
                self.flow_link(k, i, false).await;
            }
            "sflow" => {
                let Some(k) = self.live_ps() else { return };
                let s = self.w.peer.ss[k].clone();
                let iw = self.win();
                let lag = if self.r.p(15) { self.r.below(3) as i64 } else { 0 };
                let mut c = json!({"c":"in","f":"flow","ch":s.mch.unwrap(),"nii":s.nin - lag,"iw":iw,"noi":s.noi,"ow":1000});
                // next-incoming-id may only be omitted by a peer that has not seen our begin yet
                if self.r.p(15) {
                    c["echo"] = json!(true);
                }
                self.go(c).await;
            }
            "ready" | "oncredit" | "onclosel" => {
                let Some(u) = self.pick_link(true) else { return };
                self.go(json!({"c":"op","k":a,"ln":u})).await;
            }
            "setmax" => {
                if self.r.p(50) {
                    let Some(u) = self.pick_link(true) else { return };
                    let n = self.r.of(&[1, 8, 30, 1000, 100000]);
                    self.go(json!({"c":"op","k":"setmax","ln":u,"n":n})).await;
                } else {
                    let Some(u) = self.pick_link(false) else { return };
                    let n = self.r.of(&[0, 1, 8, 30, 1000]);
                    self.go(json!({"c":"op","k":"setmax","ln":u,"n":n})).await;
                }
            }
            "cancel" => {
                let v = self.w.pending_ops();
                let Some((id, _)) = self.r.pick(&v).cloned() else { return };
                self.go(json!({"c":"cancel","op":id})).await;
            }
            "wait" | "rstate" => {
                let v: Vec<i64> = self.w.o.borrow().dlv.keys().copied().collect();
                let v = self.sent_only(v);
                let Some(&d) = self.r.pick(&v) else { return };
                self.go(json!({"c":"op","k":a,"d":d})).await;
            }
            "rwait" | "rpeek" => {
                let v: Vec<i64> = self.w.o.borrow().dlv.keys().copied().collect();
                let v = self.rcvd_only(v);
                let Some(&d) = self.r.pick(&v) else { return };
                self.go(json!({"c":"op","k":a,"d":d})).await;
            }
            "settle" | "upd" | "ddrop" => {
                let v: Vec<i64> = self.w.o.borrow().dlv.keys().copied().collect();
                let v = if a == "ddrop" || self.r.p(10) { v } else { self.rcvd_only(v) };
                let Some(&d) = self.r.pick(&v) else { return };
                let st = self.r.of(&["acc", "rej", "rej:x:bad|why", "rel", "mod", "rcv:3"]);
                let k = if a == "ddrop" { "drop" } else { a };
                self.go(json!({"c":"op","k":k,"d":d,"state":st})).await;
            }
            "recv" => {
                let Some(u) = self.pick_link(false) else { return };
                // a receive has a single waiter per link
                let busy = self.w.pending_ops().iter().any(|(id, k)| k == "recv" && self.op_link(*id) == Some(u));
                if busy {
                    return;
                }
                self.go(json!({"c":"op","k":"recv","ln":u})).await;
            }
            "getdel" | "hasdel" => {
                let Some(u) = self.pick_link(false) else { return };
                self.go(json!({"c":"op","k":a,"ln":u})).await;
            }
            "credit" => {
                let Some(u) = self.pick_link(false) else { return };
                let n = self.r.of(&[0, 1, 2, 3, 10, 50]);
                self.go(json!({"c":"op","k":"credit","ln":u,"n":n})).await;
            }
            "closel" => {
                let snd = self.r.p(50);
                let Some(u) = self.pick_link(snd) else { return };
                let mut c = json!({"c":"op","k":"closel","ln":u});
                if self.r.p(30) {
                    c["err"] = json!("x:app|bye");
                }
                self.go(c).await;
            }
            "detach" => {
                let snd = self.r.p(50);
                let Some(u) = self.pick_link(snd) else { return };
                let (s, h) = {
                    let mut o = self.w.o.borrow_mut();
                    let l = match &o.links[&u] {
                        LinkObj::S(l) => (l.session().clone(), l.id()),
                        LinkObj::R(l) => (l.session().clone(), l.handle()),
                    };
                    let uid = o.sessions.iter().find(|(_, s)| std::ptr::eq(s.frame(), l.0.frame())).map(|(u, _)| *u);
                    let _ = &mut o;
                    (uid, l.1)
                };
                let Some(s) = s else { return };
                self.go(json!({"c":"op","k":"detach","s":s,"h":h,"role": if snd {"S"} else {"R"}})).await;
            }
            "att" => {
                let Some(s) = self.pick_sess() else { return };
                let role = if self.r.p(50) { "S" } else { "R" };
                if let Some(k) = self.sess_peer_idx(s) {
                    if self.w.peer.ss[k].links.iter().filter(|l| !l.edet || !l.mdet).count() >= self.pr.max_links {
                        return;
                    }
                }
                self.att(s, role).await;
            }
            "begin" => {
                let n = self.w.peer.ss.iter().filter(|s| !(s.eend || s.mend)).count();
                if n >= self.pr.max_sessions && self.r.p(60) {
                    return;
                }
                self.go(json!({"c":"op","k":"begin"})).await;
            }
            "end" => {
                let Some(s) = self.pick_sess() else { return };
                self.go(json!({"c":"op","k":"end","s":s})).await;
            }
            "close" => {
                let mut c = json!({"c":"op","k":"close"});
                if self.r.p(30) {
                    c["err"] = json!("x:closing");
                }
                self.dead = true;
                self.go(c).await;
            }
            "force" => {
                self.dead = true;
                self.go(json!({"c":"op","k":"force"})).await
            }
            "onclosec" => self.go(json!({"c":"op","k":"onclosec"})).await,
            "look" => {
                let Some(s) = self.pick_sess() else { return };
                let by = self.r.of(&["slh", "srh", "rlh", "rrh", "slh", "srh", "rlh", "rrh", "name", "name", "name"]);
                let h = self.r.below(6);
                let n = self.r.below(4);
                self.go(json!({"c":"op","k":"look","s":s,"by":by,"h":h,"name":format!("n{n}")})).await;
            }
            "getsess" => {
                let h = self.r.below(4);
                self.go(json!({"c":"op","k":"getsess","h":h})).await;
            }
            "eof" => {
                self.dead = true;
                self.go(json!({"c":"eof"})).await
            }
            "pclose" => {
                self.dead = true;
                let mut c = json!({"c":"in","f":"close","ch":0});
                if self.r.p(50) {
                    c["err"] = json!("x:peer|gone");
                }
                self.go(c).await
            }
            "pbegin" => {
                let n = self.w.peer.ss.iter().filter(|s| !(s.eend || s.mend)).count();
                if n >= self.pr.max_sessions {
                    return;
                }
                self.pbegin().await;
                self.learn().await;
            }
            "pend" => {
                let Some(k) = self.live_ps() else { return };
                let ch = self.w.peer.ss[k].mch.unwrap();
                let mut c = json!({"c":"in","f":"end","ch":ch});
                if self.r.p(40) {
                    c["err"] = json!("x:end|why");
                }
                self.go(c).await;
            }
            "pattach" => self.pattach(None).await,
            "panswer" => self.panswer(false).await,
            "pdetach" => {
                let early = self.r.p(25);
                let v = self.plinks(|l| l.matt && (l.eatt || early) && !l.mdet);
                let Some(&(k, i)) = self.r.pick(&v) else { return };
                let s = &self.w.peer.ss[k];
                let mut c = json!({"c":"in","f":"detach","ch":s.mch.unwrap(),"h":s.links[i].mh.unwrap(),"closed":true});
                if self.r.p(40) {
                    c["err"] = json!("x:det|why");
                }
                self.go(c).await;
            }
            "pdisp" => {
                let v: Vec<usize> = (0..self.w.peer.ss.len()).filter(|k| self.w.peer.ss[*k].live()).collect();
                let Some(&k) = self.r.pick(&v) else { return };
                let s = self.w.peer.ss[k].clone();
                let st = self.r.p(70);
                let state = self.r.of(&["acc", "rej", "rej:x:no|why", "rel", "mod", "rcv:2", "none", "acc", "acc"]);
                if state == "none" && !st && self.r.p(50) {
                    return;
                }
                let (first, last) = match self.r.pick(&s.uns).cloned() {
                    Some((d, _)) => {
                        let f = d - if self.r.p(20) { self.r.below(3) as i64 } else { 0 };
                        (f, if self.r.p(40) { Some(d + self.r.below(3) as i64) } else { if f != d { Some(d) } else { None } })
                    }
                    None => (self.r.below(5) as i64, None),
                };
                // ids outside what the endpoint sent are not produced by a conforming peer
                let Some(hi) = s.edid else { return };
                let first = first.max(1).min(hi);
                let last = last.map(|l| l.min(hi).max(first));
                let mut c = json!({"c":"in","f":"disp","ch":s.mch.unwrap(),"role":"R","first":first,"st":st});
                if let Some(l) = last {
                    c["last"] = json!(l);
                }
                if state != "none" {
                    c["state"] = json!(state);
                }
                self.go(c).await;
            }
            "psettle" => {
                // the peer settles its own deliveries
                let Some(k) = self.live_ps() else { return };
                let s = self.w.peer.ss[k].clone();
                let Some(&d) = self.r.pick(&s.muns) else { return };
                let mut c = json!({"c":"in","f":"disp","ch":s.mch.unwrap(),"role":"S","first":d,"st":self.r.p(80)});
                if self.r.p(50) {
                    c["state"] = json!("acc");
                }
                if self.r.p(20) {
                    c["last"] = json!(d + 1);
                }
                self.go(c).await;
            }
            "ptransfer" | "overlimit" | "oversize" | "pabort" => {
                let v = self.plinks(|l| l.role == "R" && l.eatt && l.matt && !l.mdet);
                let Some(&(k, i)) = self.r.pick(&v) else { return };
                self.ptransfer(k, i, a).await;
            }
            "ctlgo" => {
                let n = self.w.o.borrow().ctl_wait.len();
                if n == 0 {
                    if self.pr.defer > 0 && self.r.p(40) {
                        self.ctlmode().await;
                    }
                    return;
                }
                if n > 1 && self.r.p(30) {
                    self.w.step(&json!({"c":"ctlall"})).await;
                    return;
                }
                let i = if self.r.p(65) { 0 } else { self.r.below(n) };
                let m = if self.r.p(self.pr.ctlerr) { "err:c:late|x" } else { "ok" };
                self.go(json!({"c":"ctlgo","i":i,"m":m})).await;
            }
            "msggo" => {
                let n = self.w.o.borrow().msg_wait.len();
                if n == 0 {
                    let k = self.r.of(&["attached", "transfer", "detached"]);
                    let m = self.r.of(&["ok", "defer", "ok", "err:m:err"]);
                    if k == "transfer" && m != "ok" {
                        return;
                    }
                    self.w.step(&json!({"c":"msgmode","k":k,"m":m,"nq":true})).await;
                    return;
                }
                let i = self.r.below(n);
                let m = if self.r.p(15) { "err:m:late" } else { "ok" };
                self.go(json!({"c":"msggo","i":i,"m":m})).await;
            }
            "ctlmode" => self.ctlmode().await,
            "hndmode" => {
                if self.r.p(25) {
                    let m = self.r.of(&["ok", "ok", "defer", "err:h:init"]);
                    self.w.step(&json!({"c":"hndnewmode","m":m,"nq":true})).await;
                } else {
                    let m = self.r.of(&["acc", "rej", "rej:h:no|desc", "err:h:soft", "err:fatal", "defer", "defer"]);
                    self.w.step(&json!({"c":"hndmode","m":m,"nq":true})).await;
                }
            }
            "svcrdy" => {
                let held = self.w.o.borrow().svc_rdy.iter().find(|x| x.1 == "hold").map(|x| x.0.clone());
                let (k, m) = match held {
                    Some(k) => (k, if self.r.p(4) { "err:s:rdy" } else { "ok" }),
                    None => (self.r.of(&["ctl", "pub"]).to_string(), if self.r.p(6) { "err:s:rdy" } else { "hold" }),
                };
                self.w.step(&json!({"c":"svcrdy","k":k,"m":m,"nq":true})).await;
            }
            "hndrdy" => {
                let m = if self.w.o.borrow().hnd_rdy == "ok" { self.r.of(&["hold", "one", "one", "err:h:rdy"]) } else { "ok" };
                self.w.step(&json!({"c":"hndrdy","m":m,"nq":true})).await;
            }
            "hndgo" => {
                let n = self.w.o.borrow().hnd_wait.len();
                if n == 0 {
                    return;
                }
                let i = self.r.below(n);
                let m = self.r.of(&["acc", "rej", "rej:h:no|d", "err:h:soft", "err:fatal:x", "acc", "ok"]);
                self.go(json!({"c":"hndgo","i":i,"m":m})).await;
            }
            "mal" => self.mal().await,
            _ => {}
        }
    }

    fn op_link(&self, id: i64) -> Option<i64> {
        self.w.cmds.iter().rev().find_map(|_| None::<i64>).or_else(|| {
            let o = self.w.o.borrow();
            o.log.iter().rev().find(|e| e["e"] == "call" && e["op"] == id).and_then(|e| e["ln"].as_i64())
        })
    }
    fn op_kind(&self, id: i64) -> String {
        let o = self.w.o.borrow();
        o.log
            .iter()
            .find(|e| e["e"] == "call" && e["op"] == id)
            .and_then(|e| e["k"].as_str().map(|s| s.to_string()))
            .unwrap_or_default()
    }
    fn sent_only(&self, v: Vec<i64>) -> Vec<i64> {
        v.into_iter().filter(|d| self.op_kind(*d) == "send").collect()
    }
    fn rcvd_only(&self, v: Vec<i64>) -> Vec<i64> {
        v.into_iter().filter(|d| self.op_kind(*d) != "send").collect()
    }

    pub async fn ptransfer(&mut self, k: usize, i: usize, a: &str) {
        let s = self.w.peer.ss[k].clone();
        let l = s.links[i].clone();
        let credit = l.limit - l.sent;
        let over = a == "overlimit";
        if l.part.is_none() && ((credit <= 0) != over) {
            return;
        }
        let n = match a {
            "oversize" => self.r.of(&[40usize, 1100, 262145, 262144, 1001]),
            _ => self.r.of(&[1usize, 2, 5, 9, 31, 0]),
        };
        // frames fit into the endpoint's max-frame-size
        let lim = self.mfs.saturating_sub(100) as usize;
        let n0 = n.min(lim);
        let body = self.mkbody(n0);
        let mut c = json!({"c":"in","f":"transfer","ch":s.mch.unwrap(),"h":l.mh.unwrap(),"body":body});
        match l.part {
            None => {
                c["did"] = json!(s.did);
                c["tag"] = json!([[self.body, 1 + self.r.below(4)]]);
                c["fmt"] = json!(0);
                if self.r.p(25) {
                    c["st"] = json!(true);
                } else if self.r.p(50) {
                    c["st"] = json!(false);
                }
                if self.r.p(if self.pr.name == "rstream" { 8 } else { 35 }) {
                    c["more"] = json!(true);
                }
            }
            Some((d, st)) => {
                if self.r.p(40) {
                    c["did"] = json!(d);
                }
                if self.r.p(30) {
                    c["st"] = json!(st);
                }
                if a == "pabort" {
                    c["ab"] = json!(true);
                    c["body"] = json!([]);
                    if self.r.p(30) {
                        c["more"] = json!(true);
                    }
                } else if self.r.p(40) {
                    c["more"] = json!(true);
                }
            }
        }
        if a == "pabort" && l.part.is_none() {
            return;
        }
        if self.r.p(15) {
            c["batch"] = json!(true);
        }
        let mut left = n - n0;
        if left > 0 && c["ab"] != true {
            let more = c["more"].clone();
            c["more"] = json!(true);
            c["hold"] = json!(true);
            self.w.step(&c).await;
            while left > 0 {
                let m = left.min(lim);
                left -= m;
                let mut c = json!({"c":"in","f":"transfer","ch":s.mch.unwrap(),"h":l.mh.unwrap(),"body":self.mkbody(m),"hold":true,"more":true});
                if left == 0 {
                    c["more"] = more.clone();
                    c["hold"] = json!(self.r.p(self.pr.hold));
                }
                self.w.step(&c).await;
            }
            return;
        }
        self.go(c).await;
    }

    /// protocol violations and garbage
    async fn mal(&mut self) {
        let k = self.live_ps();
        let ch = k.and_then(|k| self.w.peer.ss[k].mch).unwrap_or(0);
        let t = self.r.below(24);
        let h = self.r.of(&[0i64, 1, 5, 77, -1]);
        let c = match t {
            0 => json!({"c":"in","f":"transfer","ch":ch,"h":77,"did":1,"tag":[1],"body":[[1,3]]}),
            1 => json!({"c":"in","f":"transfer","ch":99,"h":0,"did":1,"tag":[1],"body":[[1,3]]}),
            2 => json!({"c":"in","f":"detach","ch":ch,"h":h}),
            3 => json!({"c":"in","f":"detach","ch":99,"h":0}),
            4 => json!({"c":"in","f":"end","ch":99}),
            5 => json!({"c":"in","f":"begin","ch":ch,"noi":1,"iw":5,"ow":5}),
            6 => json!({"c":"in","f":"begin","ch":9,"rch":self.r.of(&[0i64,1,5,700]),"noi":1,"iw":5,"ow":5}),
            7 => json!({"c":"in","f":"flow","ch":ch,"nii":self.r.of(&[-5i64,0,1,900]),"iw":self.r.of(&[0i64,3,4294967295]),"noi":-1,"ow":0,"h":h,"dc":self.r.of(&[-7i64,0,500]),"cr":self.r.of(&[0i64,4294967295])}),
            8 => json!({"c":"in","f":"flow","ch":99,"iw":3,"noi":1,"ow":0}),
            9 => json!({"c":"in","f":"disp","ch":ch,"role":self.r.of(&["R","S"]),"first":self.r.of(&[0i64,3,-1]),"last":self.r.of(&[0i64,900,-1,2]),"st":true,"state":"acc"}),
            10 => json!({"c":"in","f":"open","cid":"again"}),
            11 => json!({"c":"in","f":"attach","ch":ch,"name":self.name(),"h":self.r.below(4),"role":self.r.of(&["R","S"])}),
            12 => json!({"c":"in","f":"attach","ch":99,"name":"zz","h":0,"role":"R"}),
            13 => json!({"c":"in","f":"raw","bytes":[0,0,0,7,2,0,0,0],"why":"size"}),
            14 => json!({"c":"in","f":"raw","bytes":[0,0,0,8,1,0,0,0],"why":"doff"}),
            15 => json!({"c":"in","f":"raw","bytes":[0,0,0,12,9,0,0,0,0,0,0,0],"why":"doff2"}),
            16 => json!({"c":"in","f":"raw","bytes":[0,0,0,16,2,0,0,0,0,83,20,192,3,2,67,9],"why":"perf"}),
            17 => json!({"c":"in","f":"raw","bytes":[0,0,0,14,2,0,0,0,0,83,20,192,0,0],"why":"size0"}),
            18 => json!({"c":"in","f":"raw","bytes":[0,0,0,18,2,0,0,0,0,83,20,208,0,0,0,3,0,0],"why":"size3"}),
            19 => json!({"c":"in","f":"raw","bytes":[0,0,0,20,2,0,0,0,0,83,20,208,0,0,0,8,255,255,255,255],"why":"cnt"}),
            20 => json!({"c":"in","f":"raw","bytes":[0,0,0,12,2,7,0,0,0,83,20,69],"why":"ftype"}),
            21 => {
                let n = 4 + self.r.below(12);
                let mut b = vec![0u8, 0, 0, (8 + n) as u8, 2, 0, 0, ch as u8];
                for _ in 0..n {
                    b.push(self.r.next() as u8);
                }
                json!({"c":"in","f":"raw","bytes":b,"why":"rnd"})
            }
            22 => {
                // continue a delivery with a wrong id
                let v = self.plinks(|l| l.role == "R" && l.eatt && l.matt && !l.mdet && l.part.is_some());
                match self.r.pick(&v).copied() {
                    Some((k, i)) => {
                        let s = &self.w.peer.ss[k];
                        json!({"c":"in","f":"transfer","ch":s.mch.unwrap(),"h":s.links[i].mh.unwrap(),"did":s.did + 5,"tag":[7],"body":[[9,2]]})
                    }
                    None => json!({"c":"in","f":"empty","ch":ch}),
                }
            }
            _ => {
                // a first transfer without a delivery id
                let v = self.plinks(|l| l.role == "R" && l.eatt && l.matt && !l.mdet && l.part.is_none() && l.limit > l.sent);
                match self.r.pick(&v).copied() {
                    Some((k, i)) => {
                        let s = &self.w.peer.ss[k];
                        json!({"c":"in","f":"transfer","ch":s.mch.unwrap(),"h":s.links[i].mh.unwrap(),"tag":[7],"body":[[9,2]],"more":self.r.p(50)})
                    }
                    None => json!({"c":"in","f":"empty","ch":ch}),
                }
            }
        };
        self.go(c).await;
    }
}

#[allow(dead_code)]
const _: i64 = NONE;
