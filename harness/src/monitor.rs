//! Executes instructions against the real program and watches every execution: compares it with the
//! oracle and, independently of the oracle, checks invariants over observed states and event logs.
use crate::model::{c, feat, Ev, P};
use crate::observe::{self, MView, Order, TState};
use crate::oracle::{self, tag, Expect, Resolved};
use crate::rng::hash_str;
use crate::svm::{Account, Bank, TxOut};
use crate::wire::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: P,
    pub msg: String,
    pub step: u64,
}

#[derive(Default, Clone)]
pub struct MInfo {
    excess: (i128, i128),
    /// what a log consumer believes the book to be
    replay: BTreeMap<u64, Order>,
    issued: u64,
    issued_any: bool,
}

#[derive(Default)]
pub struct Stats {
    pub evals: Vec<u64>,
    pub sigs: Vec<HashSet<u64>>,
    pub samples: Vec<Vec<String>>,
    pub ops: BTreeMap<String, u64>,
    pub reasons: BTreeMap<String, u64>,
    pub feats: Vec<u64>,
    pub steps: u64,
    pub ok: u64,
    pub failed: u64,
    pub may: u64,
    pub unknown: u64,
    pub unknown_why: BTreeMap<&'static str, u64>,
    pub events: BTreeMap<&'static str, u64>,
    pub batches: u64,
    pub max_batches: u64,
    pub cases: u64,
    pub cpis: u64,
    pub extra: BTreeMap<String, u64>,
}
/// one more than the number of properties
pub const NP: usize = 28;
impl Stats {
    pub fn new() -> Stats {
        Stats {
            evals: vec![0; NP],
            sigs: vec![HashSet::new(); NP],
            samples: vec![vec![]; NP],
            feats: vec![0; 64],
            ..Default::default()
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for i in 0..NP {
            self.evals[i] += o.evals[i];
            self.sigs[i].extend(o.sigs[i].iter());
            for s in &o.samples[i] {
                if self.samples[i].len() < 6 {
                    self.samples[i].push(s.clone());
                }
            }
        }
        for i in 0..64 {
            self.feats[i] += o.feats[i];
        }
        for (k, v) in o.ops {
            *self.ops.entry(k).or_default() += v;
        }
        for (k, v) in o.reasons {
            *self.reasons.entry(k).or_default() += v;
        }
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        for (k, v) in o.unknown_why {
            *self.unknown_why.entry(k).or_default() += v;
        }
        for (k, v) in o.extra {
            *self.extra.entry(k).or_default() += v;
        }
        self.steps += o.steps;
        self.ok += o.ok;
        self.failed += o.failed;
        self.may += o.may;
        self.unknown += o.unknown;
        self.batches += o.batches;
        self.max_batches = self.max_batches.max(o.max_batches);
        self.cases += o.cases;
        self.cpis += o.cpis;
    }
    pub fn note(&mut self, p: usize, sig: u64, sample: impl FnOnce() -> String) {
        self.evals[p] += 1;
        if self.sigs[p].insert(sig) && self.samples[p].len() < 6 && (self.sigs[p].len() % 7 == 1) {
            self.samples[p].push(sample());
        }
    }
    pub fn bump(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_default() += n;
    }
}

pub struct Batch {
    pub instr: u8,
    pub seq: u64,
    pub ts: i64,
    pub slot: u64,
    pub market: Pubkey,
    pub signer: Pubkey,
    pub total: u16,
    pub events: Vec<(u16, Ev)>,
}

fn rkey(r: &mut R) -> Option<Pubkey> {
    r.take(32).map(Pubkey::new)
}

pub fn decode_batch(d: &[u8]) -> Option<Batch> {
    let mut r = R::new(d);
    if r.u8()? != 15 || r.u8()? != 1 {
        return None;
    }
    let mut b = Batch {
        instr: r.u8()?,
        seq: r.u64()?,
        ts: r.i64()?,
        slot: r.u64()?,
        market: rkey(&mut r)?,
        signer: rkey(&mut r)?,
        total: r.u16()?,
        events: vec![],
    };
    while !r.d.is_empty() {
        let v = r.u8()?;
        let i = r.u16()?;
        let e = match v {
            2 => Ev::Fill { maker: rkey(&mut r)?, seq: r.u64()?, price: r.u64()?, filled: r.u64()?, remaining: r.u64()? },
            3 => Ev::Place { seq: r.u64()?, coid: r.u128()?, price: r.u64()?, lots: r.u64()? },
            4 => Ev::Reduce { seq: r.u64()?, price: r.u64()?, removed: r.u64()?, remaining: r.u64()? },
            5 => Ev::Evict { maker: rkey(&mut r)?, seq: r.u64()?, price: r.u64()?, lots: r.u64()? },
            6 => Ev::Summary { coid: r.u128()?, base: r.u64()? as u128, quote: r.u64()? as u128, fee: r.u64()? as u128 },
            7 => Ev::Fee { fees: r.u64()? as u128 },
            8 => Ev::Tif { seq: r.u64()?, slot: r.u64()?, ts: r.u64()? },
            9 => Ev::Expired { maker: rkey(&mut r)?, seq: r.u64()?, price: r.u64()?, removed: r.u64()? },
            _ => return None,
        };
        b.events.push((i, e));
    }
    Some(b)
}

fn ev_name(e: &Ev) -> &'static str {
    match e {
        Ev::Fill { .. } => "fill",
        Ev::Place { .. } => "place",
        Ev::Reduce { .. } => "reduce",
        Ev::Evict { .. } => "evict",
        Ev::Summary { .. } => "fill summary",
        Ev::Fee { .. } => "fee",
        Ev::Tif { .. } => "time in force",
        Ev::Expired { .. } => "expired",
    }
}

pub struct StepOut {
    pub ok: bool,
    pub err: String,
    pub ids: Vec<(u64, u64)>,
}

pub struct Sess {
    pub bank: Bank,
    views: HashMap<Pubkey, Rc<MView>>,
    minfo: BTreeMap<Pubkey, MInfo>,
    pub viol: Vec<Viol>,
    pub stats: Stats,
    pub step_no: u64,
    pub trace: VecDeque<String>,
    pub label: String,
    /// keep full instruction bytes in the trace
    pub verbose: bool,
    pub trace_len: usize,
    /// results of each step (for lock-step comparison)
    pub history: Option<Vec<u64>>,
}

impl Sess {
    pub fn new(label: String) -> Sess {
        Sess {
            bank: Bank { accounts: HashMap::new(), slot: 100, unix_timestamp: 1_000_000 },
            views: HashMap::new(),
            minfo: BTreeMap::new(),
            viol: vec![],
            stats: Stats::new(),
            step_no: 0,
            trace: VecDeque::new(),
            label,
            verbose: false,
            trace_len: 12,
            history: None,
        }
    }

    pub fn view(&mut self, k: &Pubkey) -> Option<Rc<MView>> {
        view_of(&self.bank, &mut self.views, k).ok()
    }

    /// the harness itself changed accounts (donation, injected state): take a new baseline
    pub fn rebase(&mut self, k: &Pubkey) {
        self.views.remove(k);
        if let Some(v) = self.view(k) {
            let e = excess(&self.bank, &v);
            let mi = self.minfo.entry(*k).or_default();
            mi.excess = e;
            mi.replay = book_map(&v);
        }
    }
    pub fn rebase_all(&mut self) {
        let ks: Vec<Pubkey> = self.minfo.keys().copied().collect();
        for k in ks {
            self.rebase(&k);
        }
    }

    fn violate(&mut self, props: P, msg: String, what: &str) {
        if self.viol.len() < 40 {
            let tr: Vec<String> = self.trace.iter().cloned().collect();
            self.viol.push(Viol {
                props,
                msg: format!("{}\n  in: {}\n  step {} of {}\n  preceding steps:\n    {}", msg, what, self.step_no, self.label, tr.join("\n    ")),
                step: self.step_no,
            });
        }
    }

    pub fn step(&mut self, ix: &Instruction) -> StepOut {
        self.step_no += 1;
        let res = {
            let bank = &self.bank;
            let views = &mut self.views;
            oracle::resolve(ix, bank, &mut |k| view_of(bank, views, k).ok())
        };
        let out = self.bank.execute(ix);
        for ch in &out.changed {
            self.views.remove(&ch.key);
        }
        let what = describe(ix, &res, &out, self.verbose, self.bank.slot, self.bank.unix_timestamp);
        let mut bad: Vec<(P, String)> = vec![];
        let mut ids = vec![];
        if let Some(g) = &out.guard {
            bad.push((c(22), format!("memory guard: {}", g)));
        }
        self.stats.steps += 1;
        self.stats.cpis += out.cpis;
        let opk = format!("{}:{}", oracle::op_name(res.tag), if out.ok { "ok" } else { "fail" });
        *self.stats.ops.entry(opk).or_default() += 1;
        if out.ok {
            self.stats.ok += 1;
        } else {
            self.stats.failed += 1;
        }
        for i in 0..56 {
            if res.feats >> i & 1 == 1 {
                self.stats.feats[i] += 1;
            }
        }
        match &res.expect {
            Expect::Fail(rs) => {
                for x in rs {
                    *self.stats.reasons.entry(x.why.to_string()).or_default() += 1;
                }
                if out.ok {
                    let p = rs.iter().fold(0, |a, x| a | x.props);
                    let w: Vec<&str> = rs.iter().map(|x| x.why).collect();
                    bad.push((p, format!("succeeded although it must fail: {}", w.join("; "))));
                }
            }
            Expect::Ok(_) => {
                if !out.ok {
                    let log = if out.err.contains("InstructionTooLarge") { c(18) } else { 0 };
                    bad.push((must_succeed(&res) | log, format!("failed ({}) although it must succeed", out.err)));
                }
            }
            Expect::May(_) => self.stats.may += 1,
            Expect::Unknown(w) => {
                self.stats.unknown += 1;
                *self.stats.unknown_why.entry(w).or_default() += 1;
            }
        }
        if out.ok {
            self.check_success(&res, &out, &mut bad, &mut ids);
        }
        self.account(&res, &out, &what);
        if self.history.is_some() {
            let mut d = digest(&res, &out, &ids);
            for ch in out.changed.iter() {
                // token balances
                if let Some((_, _, n, _, _)) = self.bank.get(&ch.key).and_then(oracle::tok_amount) {
                    d = crate::rng::mix(&[d, hash_str(&ch.key.to_string()), n]);
                }
            }
            if let Some(v) = view_of(&self.bank, &mut self.views, &res.market).ok() {
                d = crate::rng::mix(&[
                    d,
                    hash_str(&format!("{:?}{:?}{:?}", v.bids, v.asks, v.traders)),
                    v.collected as u64,
                    v.unclaimed as u64,
                    v.oseq,
                    v.hdr.seq,
                    v.hdr.status,
                ]);
            }
            if let Some(h) = &mut self.history {
                h.push(d);
            }
        }
        for (p, m) in bad {
            let m = format!("{}: {}", oracle::op_name(res.tag), m);
            self.violate(p, m, &what);
        }
        if self.trace_len > 0 {
            if self.trace.len() >= self.trace_len {
                self.trace.pop_front();
            }
            self.trace.push_back(what);
        }
        StepOut { ok: out.ok, err: out.err, ids }
    }

    fn account(&mut self, res: &Resolved, out: &TxOut, what: &str) {
        let rel = relevant(res, out);
        let mut rs = String::new();
        if let Expect::Fail(v) = &res.expect {
            for x in v {
                rs.push_str(x.why);
            }
        }
        let st = res.pre.as_ref().map(|p| p.hdr.status).unwrap_or(9);
        let k = res.pkt.map(|p| (p.kind as u64) << 2 | p.stb as u64).unwrap_or(99);
        let sig = crate::rng::mix(&[res.tag as u64, out.ok as u64, hash_str(&rs), res.feats, st, k]);
        for p in 1..NP {
            if rel & c(p as u32) != 0 {
                self.stats.note(p, sig, || what.to_string());
            }
        }
    }

    fn check_success(&mut self, res: &Resolved, out: &TxOut, bad: &mut Vec<(P, String)>, ids: &mut Vec<(u64, u64)>) {
        let t = res.tag;
        let mk = res.market;
        // ---- decode the log
        let mut batches = vec![];
        for l in &out.logs {
            match decode_batch(l) {
                None => bad.push((c(18), format!("undecodable log batch {:02x?}", &l[..l.len().min(100)]))),
                Some(b) => {
                    if l.len() + 34 > 1280 {
                        bad.push((c(18), format!("log batch of {} bytes", l.len())));
                    }
                    batches.push(b)
                }
            }
        }
        self.stats.batches += batches.len() as u64;
        self.stats.max_batches = self.stats.max_batches.max(batches.len() as u64);
        if batches.is_empty() {
            bad.push((c(18), "successful instruction without a log entry".into()));
        }
        let preseq = res.pre.as_ref().map(|p| p.hdr.seq).unwrap_or(0);
        let mut evs: Vec<Ev> = vec![];
        let mut idx = 0u16;
        for b in &batches {
            if b.instr != t || b.seq != preseq || b.ts != self.bank.unix_timestamp || b.slot != self.bank.slot || b.market != mk || b.signer != res.signer {
                bad.push((
                    c(18),
                    format!(
                        "log header wrong: instruction {} seq {} (expected {}) slot {} ts {} market {} signer {}",
                        b.instr, b.seq, preseq, b.slot, b.ts, b.market, b.signer
                    ),
                ));
            }
            if b.total as usize != b.events.len() {
                bad.push((c(18), format!("log header counts {} events, batch has {}", b.total, b.events.len())));
            }
            if batches.len() > 1 && b.events.is_empty() {
                bad.push((c(18), "empty log batch".into()));
            }
            for (i, e) in &b.events {
                if *i != idx {
                    bad.push((c(18), format!("event number {} where {} was expected", i, idx)));
                    idx = *i;
                }
                idx = idx.wrapping_add(1);
                *self.stats.events.entry(ev_name(e)).or_default() += 1;
                evs.push(e.clone());
            }
        }
        // ---- return data
        if let Some((p, d)) = &out.ret {
            let mut r = R::new(d);
            let mut okd = *p == phoenix::id();
            let n = r.u32().unwrap_or(0);
            for _ in 0..n {
                match (r.u64(), r.u64()) {
                    (Some(a), Some(b)) => ids.push((a, b)),
                    _ => okd = false,
                }
            }
            if !okd || !r.d.is_empty() {
                bad.push((c(19), "undecodable return data".into()));
            }
        }
        // ---- observed market afterwards
        let post = match self.bank.get(&mk) {
            None => None,
            Some(_) => match view_of(&self.bank, &mut self.views, &mk) {
                Ok(v) => Some(v),
                Err(e) => {
                    bad.push((c(2) | c(22), format!("market unreadable afterwards: {}", e)));
                    None
                }
            },
        };
        // ---- the oracle
        match &res.expect {
            Expect::Ok(e) | Expect::May(e) => self.compare(res, e, out, post.as_deref(), &evs, ids, bad),
            _ => {}
        }
        // ---- invariants that do not depend on the oracle
        self.invariants(res, out, post, &evs, ids, bad);
    }

    fn compare(
        &mut self,
        res: &Resolved,
        e: &oracle::Eff,
        out: &TxOut,
        post: Option<&MView>,
        evs: &[Ev],
        ids: &[(u64, u64)],
        bad: &mut Vec<(P, String)>,
    ) {
        let t = res.tag;
        let mut market_ok = true;
        match (&e.market, post) {
            (None, None) => {}
            (None, Some(_)) => bad.push((c(14), "deleted market still exists".into())),
            (Some(_), None) => bad.push((c(14) | c(22) | c(1), "market account disappeared".into())),
            (Some(m), Some(p)) => {
                let n = bad.len();
                diff_market(res, m, p, bad);
                market_ok = bad.len() == n;
            }
        }
        // accounts
        let mut keys: Vec<Pubkey> = out.changed.iter().map(|x| x.key).collect();
        keys.extend(e.accounts.keys().copied());
        keys.sort();
        keys.dedup();
        let zero = Account::system(0);
        for k in keys {
            if k == res.market && e.accounts.get(&k).is_none() {
                // its lamports and owner
                if e.market.is_some() {
                    let pre = out.changed.iter().find(|x| x.key == k).map(|x| &x.pre);
                    let now = self.bank.get(&k).unwrap_or(&zero);
                    if let Some(p) = pre {
                        if p.lamports != now.lamports || p.owner != now.owner || p.data.len() != now.data.len() {
                            bad.push((c(22) | c(14), "market account lamports, owner or size changed".into()));
                        }
                        if t == tag::INIT {
                            continue;
                        }
                    }
                }
                continue;
            }
            let now = self.bank.get(&k).unwrap_or(&zero);
            let pre = out.changed.iter().find(|x| x.key == k).map(|x| &x.pre).unwrap_or(now);
            let want = e.accounts.get(&k).unwrap_or(pre);
            let same = now == want || (now.lamports == 0 && want.lamports == 0 && want.data.is_empty());
            if !same {
                let p = account_props(res, want, now);
                bad.push((
                    p,
                    format!("account {} is {} but should be {} (was {})", k, show_acc(now), show_acc(want), show_acc(pre)),
                ));
            }
        }
        // events
        if e.ev != evs {
            let mut p = 0;
            let n = e.ev.len().max(evs.len());
            let mut first = String::new();
            for i in 0..n {
                let (a, b) = (e.ev.get(i), evs.get(i));
                if a != b {
                    if first.is_empty() {
                        first = format!("event {}: observed {:?}, expected {:?}", i, b, a);
                    }
                    p |= ev_props(t, a, b);
                    break;
                }
            }
            if market_ok {
                p |= c(18);
            }
            bad.push((p, format!("published events differ: {}", first)));
        }
        if e.ids != ids {
            bad.push((c(19), format!("returned order ids {:?}, expected {:?}", ids, e.ids)));
        }
    }

    fn invariants(
        &mut self,
        res: &Resolved,
        out: &TxOut,
        post: Option<Rc<MView>>,
        evs: &[Ev],
        ids: &[(u64, u64)],
        bad: &mut Vec<(P, String)>,
    ) {
        let t = res.tag;
        let mk = res.market;
        let signer = res.signer;
        let (slot, ts) = (self.bank.slot, self.bank.unix_timestamp as u64);
        let zero = Account::system(0);
        // token conservation per mint, and whose accounts may move
        let mut sums: BTreeMap<Pubkey, i128> = BTreeMap::new();
        let mut toks = 0;
        for ch in &out.changed {
            let now = self.bank.get(&ch.key).unwrap_or(&zero);
            let a = oracle::tok_amount(&ch.pre);
            let b = oracle::tok_amount(now);
            if let Some(a) = &a {
                *sums.entry(a.0).or_default() -= a.2 as i128;
            }
            if let Some(b) = &b {
                *sums.entry(b.0).or_default() += b.2 as i128;
            }
            if let (Some(a), Some(b)) = (&a, &b) {
                toks += 1;
                if a.0 != b.0 || a.1 != b.1 || a.3 != b.3 {
                    bad.push((c(17) | c(3), format!("token account {} changed mint, owner or state", ch.key)));
                }
                let vaults = res.pre.as_ref().map(|p| (p.hdr.base_vault, p.hdr.quote_vault));
                let is_vault = vaults.map(|v| v.0 == ch.key || v.1 == ch.key).unwrap_or(false);
                let fr = res.pre.as_ref().map(|p| p.hdr.fee_recipient);
                let entitled = a.1 == signer
                    || is_vault
                    || (matches!(t, tag::EVICT | tag::FORCE_CANCEL) && a.1 == res.trader)
                    || (t == tag::COLLECT && Some(a.1) == fr);
                if !entitled {
                    bad.push((c(1) | c(3) | c(17), format!("token account {} of {} moved", ch.key, a.1)));
                }
            }
            // seats
            if let (Some(s0), s1) = (oracle::seat_view(&ch.pre), oracle::seat_view(now)) {
                match s1 {
                    None => bad.push((c(15), "a seat was destroyed".into())),
                    Some(s1) => {
                        let auth = res.pre.as_ref().map(|p| p.hdr.authority);
                        if s0.market != s1.market || s0.trader != s1.trader || s0.market != mk || Some(signer) != auth || t != tag::SEAT_STATUS {
                            bad.push((c(15) | c(16), "a seat changed without its market's authority".into()));
                        }
                        if s0.status == 2 || s1.status > 2 {
                            bad.push((c(15), format!("seat went from {} to {}", s0.status, s1.status)));
                        }
                    }
                }
            } else if let Some(s1) = oracle::seat_view(now) {
                if s1.status != 0 || !matches!(t, tag::REQ_SEAT | tag::REQ_SEAT_AUTH) || s1.market != mk {
                    bad.push((c(15), "a seat appeared that was not requested or is not unapproved".into()));
                }
                if t == tag::REQ_SEAT && s1.trader != signer {
                    bad.push((c(15) | c(16), "seat requested for somebody else".into()));
                }
            }
            // other program accounts
            if ch.key != mk && ch.pre.owner == phoenix::id() && oracle::seat_view(&ch.pre).is_none() {
                bad.push((c(22) | c(17) | c(3), format!("program account {} changed though not the market named", ch.key)));
            }
        }
        if t != tag::INIT {
            for (m, s) in sums {
                if s != 0 {
                    bad.push((c(1), format!("mint {}: {} tokens appeared", m, s)));
                }
            }
        }
        if oracle::is_ff(t) && toks > 0 {
            bad.push((c(13), "free-funds instruction moved tokens".into()));
        }
        let post = match post {
            None => {
                self.minfo.remove(&mk);
                return;
            }
            Some(p) => p,
        };
        // structure, locks
        for s in &post.structure {
            bad.push((c(2), s.clone()));
        }
        for s in locks(&post) {
            bad.push((c(2), s));
        }
        for side in [Side::Bid, Side::Ask] {
            let cap = post.hdr.sizes[if side == Side::Bid { 0 } else { 1 }] as usize;
            if post.book(side).len() > cap {
                bad.push((c(2) | c(24), "book over capacity".into()));
            }
        }
        let bb = post.bids.iter().find(|o| !o.expired(slot, ts));
        let ba = post.asks.iter().find(|o| !o.expired(slot, ts));
        if let (Some(b), Some(a)) = (bb, ba) {
            if b.price >= a.price {
                bad.push((c(9), format!("crossed book: live bid {} live ask {}", b.price, a.price)));
            }
        }
        // solvency
        let ex = excess(&self.bank, &post);
        let mut mi = match self.minfo.remove(&mk) {
            Some(m) => m,
            None => MInfo { excess: ex, ..Default::default() },
        };
        // the named fee recipient may be the vault itself: what is paid out then stays, owed to nobody
        if let (tag::COLLECT, true, Some(p)) = (t, out.ok, &res.pre) {
            if p.hdr.fee_recipient == p.hdr.quote_vault && !out.changed.iter().any(|ch| ch.key == p.hdr.quote_vault) {
                mi.excess.1 += (p.unclaimed * p.hdr.quote_lot as u128) as i128;
            }
        }
        if ex != mi.excess {
            bad.push((
                c(1),
                format!("vault balance minus obligations moved from {:?} to {:?} (base, quote atoms)", mi.excess, ex),
            ));
        }
        if ex.0 < 0 || ex.1 < 0 {
            bad.push((c(1), format!("vaults hold less than owed: {:?}", ex)));
        }
        mi.excess = ex;
        let pre = match &res.pre {
            None => {
                self.minfo.insert(mk, mi);
                return;
            }
            Some(p) => p.clone(),
        };
        let status = pre.hdr.status;
        // header changes
        let (h0, h1) = (&pre.hdr, &post.hdr);
        if h0.authority != h1.authority && !(t == tag::CLAIM_AUTH && h0.successor == signer && h1.authority == signer) {
            bad.push((c(16), "market authority changed without its successor claiming it".into()));
        }
        if h0.successor != h1.successor && !(t == tag::NAME_SUCC && h0.authority == signer) {
            bad.push((c(16), "successor changed without the authority".into()));
        }
        if h0.fee_recipient != h1.fee_recipient && !(t == tag::FEE_RECIPIENT && h0.authority == signer) {
            bad.push((c(16) | c(6), "fee recipient changed without the authority".into()));
        }
        if h0.status != h1.status && !(t == tag::STATUS && h0.authority == signer) {
            bad.push((c(14) | c(16), "status changed without the authority".into()));
        }
        if h1.seq != h0.seq + 1 {
            bad.push((c(18), format!("market sequence number {} after {}", h1.seq, h0.seq)));
        }
        let mut fixed = h1.clone();
        fixed.authority = h0.authority;
        fixed.successor = h0.successor;
        fixed.fee_recipient = h0.fee_recipient;
        fixed.status = h0.status;
        fixed.seq = h0.seq;
        if fixed != *h0 || post.b != pre.b || post.tick != pre.tick || post.bps != pre.bps {
            bad.push((c(21), "market parameters changed after creation".into()));
        }
        // events versus the book before
        let fills: Vec<(Pubkey, u64, u64, u64, u64)> = evs
            .iter()
            .filter_map(|e| match e {
                Ev::Fill { maker, seq, price, filled, remaining } => Some((*maker, *seq, *price, *filled, *remaining)),
                _ => None,
            })
            .collect();
        if !fills.is_empty() {
            if status != 1 {
                bad.push((c(14), format!("trade in status {}", status)));
            }
            if oracle::is_multi(t) {
                bad.push((c(20) | c(9), "multi-order instruction traded".into()));
            }
            if !oracle::is_order(t) && !oracle::is_multi(t) {
                bad.push((c(3), "trade in an instruction that places no order".into()));
            }
        }
        let find = |seq: u64| pre.book(Side::of_seq(seq)).iter().find(|o| o.seq == seq);
        for (maker, seq, price, filled, _) in &fills {
            if *maker == signer && res.registered {
                bad.push((c(7), "fill against the taker's own order".into()));
            }
            match find(*seq) {
                None => bad.push((c(4) | c(18), format!("fill against unknown order {}", seq))),
                Some(o) => {
                    if o.owner != *maker || o.price != *price || o.size < *filled {
                        bad.push((c(4) | c(18) | c(3), format!("fill {} does not match the resting order {:?}", seq, o)));
                    }
                    if o.expired(slot, ts) {
                        bad.push((c(8), format!("expired order traded: {:?}", o)));
                    }
                }
            }
        }
        for e in evs {
            if let Ev::Expired { seq, .. } = e {
                if let Some(o) = find(*seq) {
                    if !o.expired(slot, ts) {
                        bad.push((c(8), format!("live order removed as expired: {:?}", o)));
                    }
                }
            }
        }
        if let Some(p) = &res.pkt {
            self.taker(res, p, &pre, &fills, evs, bad);
        }
        // identifiers
        let mut placed = vec![];
        for e in evs {
            if let Ev::Place { seq, price, .. } = e {
                let n = if seq >> 63 == 1 { !*seq } else { *seq };
                if mi.issued_any && n <= mi.issued {
                    bad.push((c(19), format!("order id {} after {}", n, mi.issued)));
                }
                mi.issued = mi.issued.max(n);
                mi.issued_any = true;
                placed.push((*price, *seq));
            }
        }
        if placed != ids {
            bad.push((c(19), format!("returned ids {:?} but placed {:?}", ids, placed)));
        }
        // evictions
        if !oracle::is_multi(t) {
            for e in evs {
                if let Ev::Evict { seq, .. } = e {
                    let side = Side::of_seq(*seq);
                    let cap = pre.hdr.sizes[if side == Side::Bid { 0 } else { 1 }] as usize;
                    let bk = pre.book(side);
                    if bk.len() < cap || bk.last().map(|o| o.seq) != Some(*seq) {
                        bad.push((c(10), format!("evicted order {} although book has {} of {} or it is not the last", seq, bk.len(), cap)));
                    }
                }
            }
        }
        // other people's balances
        self.bystanders(res, &pre, &post, evs, bad);
        // fees
        let mut fees = 0u128;
        for e in evs {
            if let Ev::Summary { fee, .. } = e {
                fees += *fee;
            }
        }
        if t == tag::COLLECT {
            if post.unclaimed != 0 || post.collected != pre.collected + pre.unclaimed {
                bad.push((c(6), format!("fee counters after collection {} {}", post.unclaimed, post.collected)));
            }
        } else {
            if post.unclaimed != pre.unclaimed + fees {
                bad.push((c(6), format!("uncollected fees {} -> {} with {} charged", pre.unclaimed, post.unclaimed, fees)));
            }
            if post.collected != pre.collected {
                bad.push((c(6), "collected total changed without a collection".into()));
            }
        }
        // a swap leaves nothing behind
        if t == tag::SWAP {
            for s in [Side::Bid, Side::Ask] {
                for o in post.book(s).iter().filter(|o| o.owner == signer) {
                    if !pre.book(s).iter().any(|x| x.seq == o.seq) {
                        bad.push((c(26) | c(5), format!("a swap left an order in the book: {:?}", o)));
                    }
                }
            }
            match (pre.traders.get(&signer), post.traders.get(&signer)) {
                (None, Some(x)) => bad.push((c(26) | c(15), format!("a swap registered the swapper: {:?}", x))),
                (Some(a), Some(b)) => {
                    // only own resting orders that are taken away give anything back
                    let own = evs.iter().any(|e| match e {
                        Ev::Reduce { .. } => true,
                        Ev::Expired { maker, .. } | Ev::Evict { maker, .. } => *maker == signer,
                        _ => false,
                    });
                    if !own && (b.qf > a.qf || b.bf > a.bf || b.ql != a.ql || b.bl != a.bl) {
                        bad.push((c(26) | c(12), format!("a swap left funds on the market: {:?} became {:?}", a, b)));
                    }
                }
                _ => {}
            }
        }
        // replay of the log
        for m in replay(&mut mi.replay, evs, &signer) {
            bad.push((c(18), m));
        }
        let now = book_map(&post);
        if now != mi.replay {
            let k = now.keys().chain(mi.replay.keys()).find(|k| now.get(k) != mi.replay.get(k)).copied().unwrap_or(0);
            bad.push((
                c(18),
                format!("replaying the log gives another book: order {}: log {:?}, book {:?}", k, mi.replay.get(&k), now.get(&k)),
            ));
            mi.replay = now;
        }
        self.minfo.insert(mk, mi);
    }

    fn taker(
        &mut self,
        res: &Resolved,
        p: &Pkt,
        pre: &MView,
        fills: &[(Pubkey, u64, u64, u64, u64)],
        evs: &[Ev],
        bad: &mut Vec<(P, String)>,
    ) {
        if p.kind == Kind::PostOnly && !fills.is_empty() {
            bad.push((c(9), "post-only order traded".into()));
        }
        let opp = p.side.opp();
        let bk = pre.book(opp);
        // every order touched, in the order it was touched, is the next one in price-time priority
        let mut i = 0;
        let mut touched = 0u64;
        let mut partial = false;
        for e in evs {
            let (seq, size, left, fill) = match e {
                Ev::Fill { seq, filled, remaining, .. } => (*seq, *filled, *remaining, true),
                Ev::Expired { seq, removed, .. } => (*seq, *removed, 0, false),
                Ev::Reduce { seq, removed, remaining, .. } => (*seq, *removed, *remaining, false),
                Ev::Evict { .. } => continue,
                _ => continue,
            };
            if Side::of_seq(seq) != opp {
                bad.push((c(4), format!("order touched an order on its own side: {:?}", e)));
                continue;
            }
            touched += 1;
            if partial {
                bad.push((c(4), "matching went on after a partial fill".into()));
            }
            match bk.get(i) {
                Some(o) if o.seq == seq => {
                    if size + left != o.size {
                        bad.push((c(4) | c(18), format!("sizes {} + {} of order {:?}", size, left, o)));
                    }
                    if let Ev::Reduce { .. } = e {
                        if o.owner != res.signer {
                            bad.push((c(7) | c(3), "someone else's order reduced".into()));
                        }
                    }
                    let crosses = match p.side {
                        Side::Bid => p.price.map(|x| o.price <= x).unwrap_or(true),
                        Side::Ask => p.price.map(|x| o.price >= x).unwrap_or(true),
                    };
                    if !crosses {
                        bad.push((c(5) | c(4), format!("touched an order beyond the limit price: {:?}", o)));
                    }
                }
                x => {
                    bad.push((c(4), format!("{:?} touched while {:?} has priority", e, x)));
                    break;
                }
            }
            if left > 0 {
                partial = true;
            }
            let _ = fill;
            i += 1;
        }
        if p.kind != Kind::PostOnly {
            if let Some(l) = p.match_limit {
                if touched > l {
                    bad.push((c(5), format!("{} orders touched with match limit {}", touched, l)));
                }
            }
        }
        let base: u128 = fills.iter().map(|f| f.3 as u128).sum();
        let adj: u128 = fills.iter().map(|f| f.2 as u128 * pre.tick as u128 * f.3 as u128).sum();
        let b = pre.b.max(1) as u128;
        let fee_adj = (adj * pre.bps as u128 + 9999) / 10000;
        let fee = (fee_adj + b - 1) / b;
        if p.base > 0 && base > p.base as u128 {
            bad.push((c(5), format!("filled {} of an order for {}", base, p.base)));
        }
        let quote = match p.side {
            Side::Bid => (adj + b - 1) / b + fee,
            Side::Ask => (adj / b).saturating_sub(fee),
        };
        if p.quote > 0 && p.kind == Kind::Ioc && quote > p.quote as u128 {
            bad.push((c(5), format!("quote {} exceeds the budget or target {}", quote, p.quote)));
        }
        if p.kind == Kind::Ioc {
            if base < p.min_base as u128 || quote < p.min_quote as u128 {
                let expired_packet = evs.is_empty();
                if !expired_packet {
                    bad.push((c(5), format!("filled {} / {} below the minimum {} / {}", base, quote, p.min_base, p.min_quote)));
                }
            }
            if evs.iter().any(|e| matches!(e, Ev::Place { .. })) {
                bad.push((c(5), "immediate-or-cancel order was posted".into()));
            }
        }
        let mut sums = 0;
        for e in evs {
            if let Ev::Summary { coid, base: sb, quote: sq, fee: sf } = e {
                sums += 1;
                if *sf != fee {
                    bad.push((c(6), format!("fee {} on {} adjusted quote at {} bps, expected {}", sf, adj, pre.bps, fee)));
                }
                if *sb != base || *sq != quote {
                    bad.push((c(18) | c(5), format!("summary {}/{} of fills {}/{}", sb, sq, base, quote)));
                }
                if *coid != p.coid {
                    bad.push((c(19), "client order id changed".into()));
                }
            }
            if let Ev::Place { coid, price, .. } = e {
                if *coid != p.coid {
                    bad.push((c(19), "client order id changed".into()));
                }
                if p.kind == Kind::Limit && Some((*price).max(1)) != p.price.map(|x| x.max(1)) {
                    bad.push((c(5) | c(9), "limit order posted at another price".into()));
                }
                if p.kind == Kind::PostOnly {
                    let worse = match p.side {
                        Side::Bid => *price <= p.price.unwrap_or(0).max(1),
                        Side::Ask => *price >= p.price.unwrap_or(0),
                    };
                    if !worse {
                        bad.push((c(9), "post-only order improved beyond its price".into()));
                    }
                }
            }
        }
        if !fills.is_empty() && sums != 1 {
            bad.push((c(18) | c(6), format!("{} fill summaries", sums)));
        }
    }

    fn bystanders(&mut self, res: &Resolved, pre: &MView, post: &MView, evs: &[Ev], bad: &mut Vec<(P, String)>) {
        let mut want = pre.traders.clone();
        let q = |p: u64, n: u64| pre.quote_of(p, n);
        for e in evs {
            let (who, seq, price, n, fill) = match e {
                Ev::Fill { maker, seq, price, filled, .. } => (maker, *seq, *price, *filled, true),
                Ev::Expired { maker, seq, price, removed } => (maker, *seq, *price, *removed, false),
                Ev::Evict { maker, seq, price, lots } => (maker, *seq, *price, *lots, false),
                _ => continue,
            };
            if let Some(t) = want.get_mut(who) {
                let t: &mut TState = t;
                match (Side::of_seq(seq), fill) {
                    (Side::Bid, true) => {
                        t.ql = t.ql.wrapping_sub(q(price, n));
                        t.bf += n as u128;
                    }
                    (Side::Ask, true) => {
                        t.bl = t.bl.wrapping_sub(n as u128);
                        t.qf += q(price, n);
                    }
                    (Side::Bid, false) => {
                        t.ql = t.ql.wrapping_sub(q(price, n));
                        t.qf += q(price, n);
                    }
                    (Side::Ask, false) => {
                        t.bl = t.bl.wrapping_sub(n as u128);
                        t.bf += n as u128;
                    }
                }
            }
        }
        let named = matches!(res.tag, tag::EVICT | tag::FORCE_CANCEL);
        for (k, t) in &want {
            if *k == res.signer || (named && *k == res.trader) {
                continue;
            }
            if post.traders.get(k) != Some(t) {
                bad.push((
                    c(3),
                    format!("bystander {}: {:?} became {:?}, events explain {:?}", k, pre.traders.get(k), post.traders.get(k), t),
                ));
            }
            for s in [Side::Bid, Side::Ask] {
                // orders of bystanders may only disappear or shrink through an event
                for o in pre.book(s).iter().filter(|o| o.owner == *k) {
                    let now = post.book(s).iter().find(|x| x.seq == o.seq);
                    let mut left = o.size as i128;
                    let mut touched = false;
                    for e in evs {
                        match e {
                            Ev::Fill { seq, filled, .. } if *seq == o.seq => {
                                left -= *filled as i128;
                                touched = true;
                            }
                            Ev::Expired { seq, .. } | Ev::Evict { seq, .. } if *seq == o.seq => {
                                left = 0;
                                touched = true;
                            }
                            _ => {}
                        }
                    }
                    if !touched && now == Some(o) {
                        continue;
                    }
                    let ok = match now {
                        None => left == 0,
                        Some(n) => n.size as i128 == left && n.price == o.price && n.owner == o.owner && n.lvs == o.lvs && n.lvt == o.lvt,
                    };
                    if !ok {
                        bad.push((c(3), format!("bystander's order {:?} became {:?}", o, now)));
                    }
                }
            }
        }
        for k in post.traders.keys() {
            if !want.contains_key(k) && *k != res.signer && !(res.tag == tag::SEAT_STATUS && *k == res.trader) {
                bad.push((c(15), format!("{} was registered without asking", k)));
            }
        }
    }
}

fn view_of(bank: &Bank, views: &mut HashMap<Pubkey, Rc<MView>>, k: &Pubkey) -> Result<Rc<MView>, String> {
    if let Some(v) = views.get(k) {
        return Ok(v.clone());
    }
    let a = bank.get(k).ok_or("no account")?;
    let v = Rc::new(observe::market(&a.data)?);
    views.insert(*k, v.clone());
    Ok(v)
}

fn book_map(v: &MView) -> BTreeMap<u64, Order> {
    v.bids.iter().chain(v.asks.iter()).map(|o| (o.seq, o.clone())).collect()
}

pub fn excess(bank: &Bank, v: &MView) -> (i128, i128) {
    let (b, q) = v.owed();
    let amt = |k: &Pubkey| bank.get(k).and_then(oracle::tok_amount).map(|x| x.2).unwrap_or(0) as i128;
    (
        amt(&v.hdr.base_vault) - (b * v.hdr.base_lot as u128) as i128,
        amt(&v.hdr.quote_vault) - (q * v.hdr.quote_lot as u128) as i128,
    )
}

pub fn locks(v: &MView) -> Vec<String> {
    let mut want: BTreeMap<Pubkey, (u128, u128)> = BTreeMap::new();
    for o in &v.bids {
        want.entry(o.owner).or_default().0 += v.quote_of(o.price, o.size);
    }
    for o in &v.asks {
        want.entry(o.owner).or_default().1 += o.size as u128;
    }
    let mut out = vec![];
    for (k, t) in &v.traders {
        let (q, b) = want.remove(k).unwrap_or_default();
        if t.ql != q || t.bl != b {
            out.push(format!("{} locks {} quote {} base, orders need {} {}", k, t.ql, t.bl, q, b));
        }
    }
    for (k, w) in want {
        out.push(format!("orders of unregistered {} ({:?})", k, w));
    }
    out
}

fn replay(book: &mut BTreeMap<u64, Order>, evs: &[Ev], signer: &Pubkey) -> Vec<String> {
    let mut out = vec![];
    for e in evs {
        match e {
            Ev::Place { seq, price, lots, .. } => {
                if book.contains_key(seq) {
                    out.push(format!("order {} placed twice", seq));
                }
                book.insert(*seq, Order { price: *price, seq: *seq, owner: *signer, size: *lots, lvs: 0, lvt: 0 });
            }
            Ev::Tif { seq, slot, ts } => match book.get_mut(seq) {
                Some(o) => {
                    o.lvs = *slot;
                    o.lvt = *ts;
                }
                None => out.push(format!("time in force of unknown order {}", seq)),
            },
            Ev::Fill { seq, filled: n, remaining, price, .. } | Ev::Reduce { seq, removed: n, remaining, price } => {
                match book.get_mut(seq) {
                    None => out.push(format!("event for unknown order {}", seq)),
                    Some(o) => {
                        if o.size != n.saturating_add(*remaining) || o.price != *price {
                            out.push(format!("{:?} does not continue {:?}", e, o));
                        }
                        if *remaining == 0 {
                            book.remove(seq);
                        } else {
                            o.size = *remaining;
                        }
                    }
                }
            }
            Ev::Evict { seq, price, lots: n, maker } | Ev::Expired { seq, price, removed: n, maker } => match book.remove(seq) {
                None => out.push(format!("removal of unknown order {}", seq)),
                Some(o) => {
                    if o.size != *n || o.price != *price || o.owner != *maker {
                        out.push(format!("{:?} does not match {:?}", e, o));
                    }
                }
            },
            _ => {}
        }
    }
    out
}

fn must_succeed(res: &Resolved) -> P {
    let f = res.feats;
    let mut p = 0;
    let t = res.tag;
    match t {
        0..=3 => {
            p |= if f & feat::FILL != 0 { c(4) | c(5) } else { 0 };
            if let Some(k) = &res.pkt {
                if k.kind == Kind::Ioc {
                    p |= c(5);
                }
                if k.kind == Kind::PostOnly {
                    p |= c(9);
                }
            }
            if p == 0 {
                p |= c(4) | c(12);
            }
            if f & (feat::PAID_IN | feat::PAID_OUT) != 0 {
                p |= c(12);
            }
            if f & feat::PKT_EXPIRED != 0 {
                p = c(8);
            }
        }
        16 | 17 => p |= c(20),
        4..=11 => {
            p |= c(11);
        }
        tag::FORCE_CANCEL => p |= c(11) | c(15),
        tag::WITHDRAW | tag::DEPOSIT => p |= c(12),
        tag::REQ_SEAT | tag::REQ_SEAT_AUTH | tag::SEAT_STATUS | tag::EVICT => p |= c(15),
        tag::STATUS => p |= c(14),
        tag::COLLECT => p |= c(6),
        tag::FEE_RECIPIENT | tag::CLAIM_AUTH | tag::NAME_SUCC => p |= c(16),
        tag::INIT => p |= c(21),
        _ => p |= c(22),
    }
    let st = res.pre.as_ref().map(|p| p.hdr.status).unwrap_or(1);
    if st != 1 {
        p |= c(14);
    }
    if oracle::is_ff(t) {
        p |= c(13);
    }
    if f & feat::SILENT != 0 {
        p |= c(13);
    }
    if f & feat::SELF != 0 {
        p |= c(7);
    }
    if f & (feat::EXPIRED | feat::EXPIRY_EDGE) != 0 {
        p |= c(8);
    }
    if f & feat::EVICT != 0 {
        p |= c(10);
    }
    if f & feat::AMEND != 0 {
        p |= c(9);
    }
    if f & feat::REGISTERED != 0 {
        p |= c(15);
    }
    if t == tag::SWAP && !res.registered {
        p |= c(26);
    }
    p
}

fn relevant(res: &Resolved, out: &TxOut) -> P {
    let f = res.feats;
    let t = res.tag;
    let mut p = 0;
    if out.ok {
        p |= c(1) | c(2) | c(18);
        if res.pre.as_ref().map(|v| v.traders.len() > 1).unwrap_or(false) {
            p |= c(3);
        }
    } else {
        p |= c(22);
    }
    if f & (feat::FILL | feat::ZEROFILL) != 0 {
        p |= c(4) | c(6);
    }
    if oracle::is_order(t) {
        p |= c(5);
        if f & feat::POSTED != 0 || f & feat::AMEND != 0 || f & feat::RESIDUAL_DROPPED != 0 {
            p |= c(9);
        }
    }
    if f & feat::SELF != 0 {
        p |= c(7);
    }
    if f & (feat::EXPIRED | feat::PKT_EXPIRED | feat::TIF | feat::EXPIRY_EDGE) != 0 {
        p |= c(8);
    }
    if f & feat::FULLBOOK != 0 {
        p |= c(10);
    }
    if oracle::is_cancel(t) || t == tag::FORCE_CANCEL {
        p |= c(11);
    }
    if f & (feat::PAID_IN | feat::PAID_OUT) != 0 || t == tag::WITHDRAW || t == tag::DEPOSIT {
        p |= c(12);
    }
    if oracle::is_ff(t) || f & feat::SILENT != 0 || f & feat::FREEUSED != 0 {
        p |= c(13);
    }
    let st = res.pre.as_ref().map(|p| p.hdr.status).unwrap_or(1);
    if st != 1 || t == tag::STATUS {
        p |= c(14);
    }
    if matches!(t, tag::REQ_SEAT | tag::REQ_SEAT_AUTH | tag::SEAT_STATUS | tag::EVICT | tag::FORCE_CANCEL) {
        p |= c(15);
    }
    if oracle::is_admin(t) {
        p |= c(16);
    }
    if f & feat::POSTED != 0 {
        p |= c(19);
    }
    if oracle::is_multi(t) {
        p |= c(20);
    }
    if t == tag::INIT {
        p |= c(21);
    }
    if t == tag::SWAP {
        p |= c(26);
    }
    if t == tag::COLLECT || t == tag::FEE_RECIPIENT {
        p |= c(6);
    }
    if let Expect::Fail(rs) = &res.expect {
        for r in rs {
            p |= r.props;
        }
    }
    p
}

fn ev_props(t: u8, a: Option<&Ev>, b: Option<&Ev>) -> P {
    let mut p = 0;
    for e in [a, b].into_iter().flatten() {
        p |= match e {
            Ev::Fill { .. } => c(4),
            Ev::Place { .. } => c(19),
            Ev::Reduce { .. } => {
                if oracle::is_order(t) {
                    c(7)
                } else {
                    c(11)
                }
            }
            Ev::Evict { .. } => c(10),
            Ev::Summary { .. } => c(6) | c(5),
            Ev::Fee { .. } => c(6),
            Ev::Tif { .. } | Ev::Expired { .. } => c(8),
        };
    }
    if oracle::is_multi(t) {
        p |= c(20);
    }
    p
}

fn account_props(res: &Resolved, want: &Account, now: &Account) -> P {
    let t = res.tag;
    let is_tok = oracle::tok_amount(want).is_some() || oracle::tok_amount(now).is_some();
    if is_tok {
        let mut p = c(12);
        if t == tag::COLLECT {
            p |= c(6);
        }
        if t == tag::SWAP && !res.registered {
            p |= c(26);
        }
        if t == tag::EVICT {
            p |= c(15);
        }
        if oracle::is_cancel(t) || t == tag::FORCE_CANCEL {
            p |= c(11);
        }
        if oracle::is_ff(t) {
            p |= c(13);
        }
        if oracle::is_multi(t) {
            p |= c(20);
        }
        if t == tag::INIT {
            p = c(21);
        }
        if let (Some(x), Some(y)) = (oracle::tok_amount(want), oracle::tok_amount(now)) {
            p |= far(x.2 as u128, y.2 as u128);
        }
        return p;
    }
    if oracle::seat_view(want).is_some() || oracle::seat_view(now).is_some() {
        return c(15);
    }
    match t {
        tag::STATUS => c(14) | c(22),
        tag::INIT => c(21) | c(22),
        tag::REQ_SEAT | tag::REQ_SEAT_AUTH => c(15) | c(22),
        _ => c(22) | c(17),
    }
}

/// so far off that a number must have wrapped or been cut
fn far(a: u128, b: u128) -> P {
    if a.abs_diff(b) > 1 << 40 {
        c(22)
    } else {
        0
    }
}

fn diff_market(res: &Resolved, m: &MView, p: &MView, bad: &mut Vec<(P, String)>) {
    let t = res.tag;
    let f = res.feats;
    let (a, b) = (&m.hdr, &p.hdr);
    let mut h = |c0: bool, props: P, what: &str| {
        if c0 {
            bad.push((props | if t == tag::INIT { c(21) } else { 0 }, format!("{} differs from what it should be", what)));
        }
    };
    h(a.status != b.status, c(14), "market status");
    h(a.authority != b.authority, c(16), "authority");
    h(a.successor != b.successor, c(16), "successor");
    h(a.fee_recipient != b.fee_recipient, c(16) | c(6), "fee recipient");
    h(a.seq != b.seq, c(18), "market sequence number");
    let mut x = b.clone();
    x.status = a.status;
    x.authority = a.authority;
    x.successor = a.successor;
    x.fee_recipient = a.fee_recipient;
    x.seq = a.seq;
    h(x != *a, c(21), "market header");
    h(m.bps != p.bps, c(21) | c(6), "taker fee rate");
    h(m.b != p.b || m.tick != p.tick, c(21), "market parameters");
    h(m.oseq != p.oseq, c(19), "order sequence counter");
    h(m.unclaimed != p.unclaimed, c(6) | far(m.unclaimed, p.unclaimed), "uncollected fees");
    h(m.collected != p.collected, c(6) | far(m.collected, p.collected), "collected fees");
    let order_op = oracle::is_order(t) || oracle::is_multi(t);
    for side in [Side::Bid, Side::Ask] {
        if m.book(side) == p.book(side) {
            continue;
        }
        let mm: BTreeMap<u64, &Order> = m.book(side).iter().map(|o| (o.seq, o)).collect();
        let pp: BTreeMap<u64, &Order> = p.book(side).iter().map(|o| (o.seq, o)).collect();
        let mut keys: Vec<u64> = mm.keys().chain(pp.keys()).copied().collect();
        keys.sort();
        keys.dedup();
        let pre_has = |s: u64| res.pre.as_ref().map(|v| v.book(side).iter().any(|o| o.seq == s)).unwrap_or(false);
        let mut props = 0;
        let mut what = String::new();
        for k in keys {
            let (w, o) = (mm.get(&k), pp.get(&k));
            if w == o {
                continue;
            }
            if what.is_empty() {
                what = format!("{:?} order {}: observed {:?}, should be {:?}", side, k, o, w);
            }
            if !order_op {
                props |= if oracle::is_cancel(t) || t == tag::FORCE_CANCEL { c(11) } else { c(3) };
                continue;
            }
            if pre_has(k) {
                // a resting order
                let own = m.book(side).iter().chain(p.book(side).iter()).any(|o| o.seq == k && o.owner == res.signer);
                let expired = res
                    .pre
                    .as_ref()
                    .and_then(|v| v.book(side).iter().find(|o| o.seq == k).cloned())
                    .map(|o| o.lvs != 0 || o.lvt != 0)
                    .unwrap_or(false);
                if own || f & feat::SELF != 0 {
                    props |= c(7);
                }
                if expired || f & feat::PKT_EXPIRED != 0 {
                    props |= c(8);
                }
                if f & (feat::FULLBOOK | feat::EVICT) != 0 {
                    props |= c(10);
                }
                if oracle::is_multi(t) {
                    props |= c(20);
                } else {
                    props |= c(4) | c(5);
                }
            } else {
                // the new order
                match (w, o) {
                    (Some(w), Some(o)) => {
                        if w.lvs != o.lvs || w.lvt != o.lvt {
                            props |= c(8);
                        }
                        if w.price != o.price {
                            props |= c(9);
                        }
                        if w.size != o.size {
                            props |= c(5) | c(4) | far(w.size as u128, o.size as u128);
                        }
                        if w.owner != o.owner {
                            props |= c(3) | c(11);
                        }
                    }
                    _ => {
                        props |= c(9) | c(5);
                        if f & (feat::FULLBOOK | feat::EVICT) != 0 {
                            props |= c(10);
                        }
                        if f & feat::SILENT != 0 {
                            props |= c(13);
                        }
                        if f & feat::PKT_EXPIRED != 0 {
                            props |= c(8);
                        }
                        if mm.len() == pp.len() {
                            props |= c(19) | c(4);
                        }
                    }
                }
                if oracle::is_multi(t) {
                    props |= c(20);
                    if f & feat::SKIPPED != 0 {
                        props |= c(13);
                    }
                }
            }
        }
        if what.is_empty() {
            what = format!("{:?} book order", side);
            props |= c(4) | c(2);
        }
        bad.push((props, what));
    }
    let mut keys: Vec<&Pubkey> = m.traders.keys().chain(p.traders.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let (w, o) = (m.traders.get(k), p.traders.get(k));
        if w == o {
            continue;
        }
        let mut props = 0;
        match (w, o) {
            (Some(w), Some(o)) => {
                let locked = w.ql != o.ql || w.bl != o.bl;
                for (x, y) in [(w.ql, o.ql), (w.qf, o.qf), (w.bl, o.bl), (w.bf, o.bf)] {
                    props |= far(x as u128, y as u128);
                }
                if *k == res.signer || *k == res.trader {
                    if locked {
                        props |= c(2);
                    }
                    if w.qf != o.qf || w.bf != o.bf {
                        props |= c(12);
                        if oracle::is_ff(t) {
                            props |= c(13);
                        }
                        if f & feat::FEE != 0 && !oracle::is_cancel(t) {
                            props |= c(6);
                        }
                        if f & feat::SELF != 0 {
                            props |= c(7);
                        }
                        if f & feat::EXPIRED != 0 {
                            props |= c(8);
                        }
                        if f & feat::EVICT != 0 {
                            props |= c(10);
                        }
                        if oracle::is_cancel(t) || t == tag::FORCE_CANCEL {
                            props |= c(11);
                        }
                        if oracle::is_multi(t) {
                            props |= c(20);
                        }
                    }
                } else {
                    props |= c(3);
                    if locked {
                        props |= c(2);
                    }
                    if f & feat::EVICT != 0 {
                        props |= c(10);
                    }
                    if f & feat::EXPIRED != 0 {
                        props |= c(8);
                    }
                }
            }
            _ => {
                props |= c(15);
                if t == tag::FORCE_CANCEL {
                    props |= c(11);
                }
            }
        }
        bad.push((props, format!("trader {}: observed {:?}, should be {:?}", k, o, w)));
    }
}

fn show_acc(a: &Account) -> String {
    if let Some(t) = oracle::tok_amount(a) {
        return format!("token account of {} with {} ({} lamports)", t.1, t.2, a.lamports);
    }
    if let Some(s) = oracle::seat_view(a) {
        return format!("seat of {} status {} ({} lamports)", s.trader, s.status, a.lamports);
    }
    format!("{} lamports, {} bytes, owner {}", a.lamports, a.data.len(), a.owner)
}

fn digest(res: &Resolved, out: &TxOut, ids: &[(u64, u64)]) -> u64 {
    let mut v = vec![res.tag as u64, out.ok as u64];
    for (a, b) in ids {
        v.push(*a);
        v.push(*b);
    }
    for l in &out.logs {
        // without market key and signer
        let mut s = l.clone();
        if s.len() >= 93 {
            for b in s[27..91].iter_mut() {
                *b = 0;
            }
        }
        v.push(hash_str(&format!("{:x?}", s)));
    }
    crate::rng::mix(&v)
}

fn describe(ix: &Instruction, res: &Resolved, out: &TxOut, verbose: bool, slot: u64, ts: i64) -> String {
    let short = |k: &Pubkey| k.to_string()[..5].to_string();
    let body = match (&res.pkt, &res.multi) {
        (Some(p), _) => format!(
            "{:?} {:?} price={:?} base={} quote={} min={}/{} {:?} limit={:?} reject={} silent={} valid={:?}/{:?}",
            p.kind, p.side, p.price, p.base, p.quote, p.min_base, p.min_quote, p.stb, p.match_limit, p.reject, p.silent, p.lvs, p.lvt
        ),
        (_, Some(m)) => format!(
            "bids={:?} asks={:?} mode={}",
            m.bids.iter().take(6).map(|x| (x.price, x.size)).collect::<Vec<_>>(),
            m.asks.iter().take(6).map(|x| (x.price, x.size)).collect::<Vec<_>>(),
            m.mode
        ),
        _ => {
            let d: String = ix.data.iter().skip(1).take(40).map(|b| format!("{:02x}", b)).collect();
            format!("data={}", d)
        }
    };
    let mut s = format!(
        "{} by {} on {} @{}/{}: {} -> {}",
        oracle::op_name(res.tag),
        short(&res.signer),
        short(&res.market),
        slot,
        ts,
        body,
        if out.ok { "ok".to_string() } else { format!("fail {}", out.err) }
    );
    if verbose {
        let d: String = ix.data.iter().map(|b| format!("{:02x}", b)).collect();
        let a: Vec<String> = ix
            .accounts
            .iter()
            .map(|m| format!("{}{}{}", m.pubkey, if m.is_signer { " s" } else { "" }, if m.is_writable { " w" } else { "" }))
            .collect();
        s.push_str(&format!("\n      bytes {}\n      accounts [{}]", d, a.join(", ")));
    }
    s
}

/// names of the bits of `feat`
pub const FEATURES: [&str; 39] = [
    "self trade", "expired order met", "fill", "partial fill", "eviction", "full book", "post-only amended", "match limit reached", "quote budget",
    "fee", "multi-order", "free-funds form", "silent failure", "order skipped", "several log batches", "minimum fill", "packet expired",
    "free funds used", "order posted", "residual dropped", "several fills", "time in force", "tokens paid in", "tokens paid out",
    "registered trader", "entries merged", "missing order", "overflow", "own order evicted", "zero fill", "unregistered taker", "authority",
    "bid", "ask", "several orders at one price", "expired and live order in one sweep", "exact expiry moment", "limit price binds", "big numbers",
];
