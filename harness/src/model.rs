//! Executable specification of what each instruction must do to a market, in unbounded (u128)
//! arithmetic and straight-line code over sorted vectors. It shares no code with the program.
use crate::observe::{MView, Order, TState};
use crate::wire::*;
use solana_program::pubkey::Pubkey;

pub type P = u32;
pub const fn c(n: u32) -> P {
    1 << n
}

pub mod feat {
    pub const SELF: u64 = 1;
    pub const EXPIRED: u64 = 1 << 1;
    pub const FILL: u64 = 1 << 2;
    pub const PARTIAL: u64 = 1 << 3;
    pub const EVICT: u64 = 1 << 4;
    pub const FULLBOOK: u64 = 1 << 5;
    pub const AMEND: u64 = 1 << 6;
    pub const MATCHLIMIT: u64 = 1 << 7;
    pub const QBUDGET: u64 = 1 << 8;
    pub const FEE: u64 = 1 << 9;
    pub const MULTI: u64 = 1 << 10;
    pub const FF: u64 = 1 << 11;
    pub const SILENT: u64 = 1 << 12;
    pub const SKIPPED: u64 = 1 << 13;
    pub const BATCHES: u64 = 1 << 14;
    pub const MINFILL: u64 = 1 << 15;
    pub const PKT_EXPIRED: u64 = 1 << 16;
    pub const FREEUSED: u64 = 1 << 17;
    pub const POSTED: u64 = 1 << 18;
    pub const RESIDUAL_DROPPED: u64 = 1 << 19;
    pub const MULTIFILL: u64 = 1 << 20;
    pub const TIF: u64 = 1 << 21;
    pub const PAID_IN: u64 = 1 << 22;
    pub const PAID_OUT: u64 = 1 << 23;
    pub const REGISTERED: u64 = 1 << 24;
    pub const MERGED: u64 = 1 << 25;
    pub const MISSING: u64 = 1 << 26;
    pub const OVF: u64 = 1 << 27;
    pub const OWNEVICT: u64 = 1 << 28;
    pub const ZEROFILL: u64 = 1 << 29;
    pub const UNREG: u64 = 1 << 30;
    pub const AUTH: u64 = 1 << 31;
    pub const BID: u64 = 1 << 32;
    pub const ASK: u64 = 1 << 33;
    pub const EQUALPRICE: u64 = 1 << 34;
    pub const SWEEP_EXP_LIVE: u64 = 1 << 35;
    pub const EXPIRY_EDGE: u64 = 1 << 36;
    pub const LIMIT_BOUND: u64 = 1 << 37;
    pub const BIG: u64 = 1 << 38;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Fill { maker: Pubkey, seq: u64, price: u64, filled: u64, remaining: u64 },
    Place { seq: u64, coid: u128, price: u64, lots: u64 },
    Reduce { seq: u64, price: u64, removed: u64, remaining: u64 },
    Evict { maker: Pubkey, seq: u64, price: u64, lots: u64 },
    Summary { coid: u128, base: u128, quote: u128, fee: u128 },
    Fee { fees: u128 },
    Tif { seq: u64, slot: u64, ts: u64 },
    Expired { maker: Pubkey, seq: u64, price: u64, removed: u64 },
}

#[derive(Clone, Debug)]
pub struct Reason {
    pub why: &'static str,
    pub props: P,
}
pub fn r(why: &'static str, props: P) -> Reason {
    Reason { why, props }
}

pub enum Stop {
    Fail(Reason),
    Unknown(&'static str),
}
type Res<T> = Result<T, Stop>;
fn fail<T>(why: &'static str, props: P) -> Res<T> {
    Err(Stop::Fail(r(why, props)))
}

#[derive(Default, Clone, Debug)]
pub struct Resp {
    pub q_in: u128,
    pub b_in: u128,
    pub q_out: u128,
    pub b_out: u128,
    pub q_post: u128,
    pub b_post: u128,
    pub q_free: u128,
    pub b_free: u128,
    pub matched: bool,
}
impl Resp {
    pub fn q_dep(&self) -> u128 {
        self.q_in + self.q_post - self.q_free
    }
    pub fn b_dep(&self) -> u128 {
        self.b_in + self.b_post - self.b_free
    }
}

/// Working state of one instruction.
pub struct M {
    pub v: MView,
    pub slot: u64,
    pub ts: u64,
    pub ev: Vec<Ev>,
    pub ids: Vec<(u64, u64)>,
    pub feats: u64,
    /// some intermediate exceeds 64 bits: the program may refuse, but must not wrap
    pub ovf: bool,
}

const MAX: u128 = u64::MAX as u128;

impl M {
    pub fn new(v: MView, slot: u64, ts: u64) -> M {
        M { v, slot, ts, ev: vec![], ids: vec![], feats: 0, ovf: false }
    }
    pub fn cap(&mut self, x: u128) -> u128 {
        if x > MAX {
            self.ovf = true;
            self.feats |= feat::OVF;
        }
        x
    }
    fn prod(&mut self, price: u64, size: u128) -> u128 {
        let a = price as u128 * self.v.tick as u128;
        let a = self.cap(a);
        match a.checked_mul(size) {
            Some(x) => self.cap(x),
            None => {
                self.ovf = true;
                u128::MAX / 4
            }
        }
    }
    fn quote(&mut self, price: u64, size: u128) -> u128 {
        self.prod(price, size) / self.v.b.max(1) as u128
    }
    fn t(&mut self, k: &Pubkey) -> &mut TState {
        self.v.traders.get_mut(k).expect("model: trader not registered")
    }
    pub fn seats(&self) -> usize {
        self.v.hdr.sizes[2] as usize
    }
    pub fn side_cap(&self, s: Side) -> usize {
        match s {
            Side::Bid => self.v.hdr.sizes[0] as usize,
            Side::Ask => self.v.hdr.sizes[1] as usize,
        }
    }
    pub fn register(&mut self, k: &Pubkey, props: P) -> Res<()> {
        if self.v.traders.contains_key(k) {
            return Ok(());
        }
        if self.v.traders.len() >= self.seats() {
            return fail("no place left for another trader", props | c(15) | c(24));
        }
        self.v.traders.insert(*k, TState::default());
        self.feats |= feat::REGISTERED;
        Ok(())
    }
    /// locked funds of `size` of an order go back to its owner
    fn unlock(&mut self, side: Side, owner: &Pubkey, price: u64, size: u64) -> u128 {
        let n = match side {
            Side::Bid => self.quote(price, size as u128),
            Side::Ask => size as u128,
        };
        let t = self.t(owner);
        match side {
            Side::Bid => {
                t.ql = t.ql.saturating_sub(n);
                t.qf += n;
                let x = t.qf;
                self.cap(x);
            }
            Side::Ask => {
                t.bl = t.bl.saturating_sub(n);
                t.bf += n;
                let x = t.bf;
                self.cap(x);
            }
        }
        n
    }
    fn expire_top(&mut self, side: Side) {
        let o = self.v.book_mut(side).remove(0);
        self.ev.push(Ev::Expired { maker: o.owner, seq: o.seq, price: o.price, removed: o.size });
        self.unlock(side, &o.owner, o.price, o.size);
        self.feats |= feat::EXPIRED;
    }
    fn edge(&mut self, o: &Order) {
        if (o.lvs != 0 && (o.lvs == self.slot || o.lvs.wrapping_add(1) == self.slot))
            || (o.lvt != 0 && (o.lvt == self.ts || o.lvt.wrapping_add(1) == self.ts))
        {
            self.feats |= feat::EXPIRY_EDGE;
        }
    }

    /// the pure matching engine
    pub fn place(&mut self, trader: &Pubkey, p: &Pkt) -> Res<(Option<(u64, u64)>, Resp)> {
        let mut p = *p;
        self.feats |= match p.side {
            Side::Bid => feat::BID,
            Side::Ask => feat::ASK,
        };
        if self.v.oseq == 0 || self.v.oseq == u64::MAX >> 1 {
            return fail("order sequence numbers exhausted", c(19));
        }
        let ioc = p.kind == Kind::Ioc;
        let mut price = p.price.unwrap_or(match p.side {
            Side::Bid => u64::MAX,
            Side::Ask => 0,
        });
        match p.side {
            Side::Bid => {
                if price == 0 {
                    return fail("bid at price zero", c(5) | c(2));
                }
            }
            Side::Ask => {
                if !ioc {
                    price = price.max(1);
                }
            }
        }
        if !ioc {
            self.register(trader, 0)?;
        }
        if p.base == 0 && p.quote == 0 {
            return fail("order of size zero", c(5) | c(2));
        }
        if ioc && ((p.base > 0) == (p.quote > 0)) {
            return fail("both size and quote budget given", c(5));
        }
        let registered = self.v.traders.contains_key(trader);
        if p.lvs.map(|s| self.slot > s).unwrap_or(false) || p.lvt.map(|t| self.ts > t).unwrap_or(false) {
            self.feats |= feat::PKT_EXPIRED;
            return Ok((None, Resp::default()));
        }
        if p.lvs.map(|s| self.slot == s).unwrap_or(false) || p.lvt.map(|t| self.ts == t).unwrap_or(false) {
            self.feats |= feat::EXPIRY_EDGE;
        }
        let opp = p.side.opp();
        let mut resp = Resp::default();
        let residual;
        if p.kind == Kind::PostOnly {
            let mut swept = false;
            loop {
                let top = match self.v.book(opp).first() {
                    None => break,
                    Some(o) => o.clone(),
                };
                let crosses = match p.side {
                    Side::Bid => top.price <= price,
                    Side::Ask => top.price >= price,
                };
                if !crosses {
                    break;
                }
                self.edge(&top);
                if top.expired(self.slot, self.ts) {
                    self.expire_top(opp);
                    swept = true;
                    continue;
                }
                if swept {
                    self.feats |= feat::SWEEP_EXP_LIVE;
                }
                if p.reject {
                    return fail("post-only order would cross", c(9) | c(20));
                }
                self.feats |= feat::AMEND;
                match p.side {
                    Side::Bid => {
                        if top.price <= 1 {
                            return fail("post-only bid cannot be amended below one tick", c(9) | c(20));
                        }
                        price = top.price - 1;
                    }
                    Side::Ask => {
                        if top.price == u64::MAX {
                            self.ovf = true;
                            return fail("post-only ask cannot be amended", c(9));
                        }
                        price = top.price + 1;
                    }
                }
                break;
            }
            residual = p.base as u128;
        } else {
            let mut base_budget: u128 = if p.base == 0 { MAX } else { p.base as u128 };
            let mut adj: u128 = MAX;
            if p.quote > 0 {
                self.feats |= feat::QBUDGET;
                let q = self.cap(p.quote as u128 * self.v.b as u128);
                let f = (MAX * self.v.bps as u128 + 9999) / 10000;
                let x = match p.side {
                    // q * MAX / (MAX + f), computed without overflowing 128 bits
                    Side::Bid => muldiv(q, MAX, MAX + f),
                    Side::Ask => {
                        if MAX == f {
                            return Err(Stop::Unknown("quote target at a 100% fee"));
                        }
                        muldiv(q, MAX, MAX - f)
                    }
                };
                adj = x.min(MAX);
            }
            let mut limit = p.match_limit.unwrap_or(u64::MAX);
            let mut stop = false;
            let mut mb: u128 = 0;
            let mut madj: u128 = 0;
            let mut fills = 0;
            let mut touched = 0u64;
            let mut last_price = None;
            while base_budget > 0 && adj > 0 && limit > 0 && !stop {
                let top = match self.v.book(opp).first() {
                    None => break,
                    Some(o) => o.clone(),
                };
                let crosses = match p.side {
                    Side::Bid => top.price <= price,
                    Side::Ask => top.price >= price,
                };
                if !crosses {
                    self.feats |= feat::LIMIT_BOUND;
                    break;
                }
                self.edge(&top);
                if last_price == Some(top.price) {
                    self.feats |= feat::EQUALPRICE;
                }
                last_price = Some(top.price);
                touched += 1;
                if top.expired(self.slot, self.ts) {
                    self.expire_top(opp);
                    limit -= 1;
                    continue;
                }
                if registered && top.owner == *trader {
                    self.feats |= feat::SELF;
                    match p.stb {
                        Stb::Abort => return fail("self trade with abort", c(7)),
                        Stb::CancelProvide => {
                            self.v.book_mut(opp).remove(0);
                            self.ev.push(Ev::Reduce { seq: top.seq, price: top.price, removed: top.size, remaining: 0 });
                            self.unlock(opp, trader, top.price, top.size);
                        }
                        Stb::DecrementTake => {
                            let per = (top.price as u128 * self.v.tick as u128).max(1);
                            self.cap(per);
                            let n = base_budget.min(adj / per).min(top.size as u128) as u64;
                            let remaining = top.size - n;
                            if remaining == 0 {
                                self.v.book_mut(opp).remove(0);
                            } else {
                                self.v.book_mut(opp)[0].size = remaining;
                                stop = true;
                            }
                            self.ev.push(Ev::Reduce { seq: top.seq, price: top.price, removed: n, remaining });
                            self.unlock(opp, trader, top.price, n);
                            let cost = self.prod(top.price, n as u128);
                            base_budget = base_budget.saturating_sub(n as u128);
                            adj = adj.saturating_sub(cost);
                        }
                    }
                    limit -= 1;
                    continue;
                }
                let cost = self.prod(top.price, top.size as u128);
                let n;
                if top.size as u128 <= base_budget && cost <= adj {
                    n = top.size as u128;
                    self.v.book_mut(opp).remove(0);
                } else {
                    let per = top.price as u128 * self.v.tick as u128;
                    n = base_budget.min(adj / per.max(1));
                    stop = true;
                    if n > 0 {
                        self.v.book_mut(opp)[0].size = top.size - n as u64;
                        self.feats |= feat::PARTIAL;
                    } else {
                        self.feats |= feat::ZEROFILL;
                    }
                }
                let cost = self.prod(top.price, n);
                base_budget -= n;
                adj -= cost.min(adj);
                limit -= 1;
                mb += n;
                madj += cost;
                self.cap(madj);
                if n > 0 {
                    fills += 1;
                    self.ev.push(Ev::Fill {
                        maker: top.owner,
                        seq: top.seq,
                        price: top.price,
                        filled: n as u64,
                        remaining: top.size - n as u64,
                    });
                }
                let q = cost / self.v.b.max(1) as u128;
                let t = self.t(&top.owner);
                match p.side {
                    Side::Bid => {
                        t.bl = t.bl.saturating_sub(n);
                        t.qf += q;
                        let x = t.qf;
                        self.cap(x);
                    }
                    Side::Ask => {
                        t.ql = t.ql.saturating_sub(q);
                        t.bf += n;
                        let x = t.bf;
                        self.cap(x);
                    }
                }
            }
            if limit == 0 && touched > 0 {
                self.feats |= feat::MATCHLIMIT;
            }
            if fills > 0 {
                self.feats |= feat::FILL;
            }
            if fills > 1 {
                self.feats |= feat::MULTIFILL;
            }
            let b = self.v.b.max(1) as u128;
            let fee_adj = (madj * self.v.bps as u128 + 9999) / 10000;
            self.cap(fee_adj + b - 1);
            self.cap(madj + b - 1);
            let fee = (fee_adj + b - 1) / b;
            if fee > 0 {
                self.feats |= feat::FEE;
            }
            self.v.unclaimed += fee;
            let x = self.v.unclaimed;
            self.cap(x);
            let quote = match p.side {
                Side::Bid => (madj + b - 1) / b + fee,
                Side::Ask => (madj / b).saturating_sub(fee),
            };
            self.cap(quote);
            match p.side {
                Side::Bid => {
                    resp.q_in = quote;
                    resp.b_out = mb;
                }
                Side::Ask => {
                    resp.b_in = mb;
                    resp.q_out = quote;
                }
            }
            resp.matched = mb > 0;
            self.ev.push(Ev::Summary { coid: p.coid, base: mb, quote, fee });
            residual = base_budget;
        }
        let mut placed = None;
        if ioc {
            if p.min_base > 0 || p.min_quote > 0 {
                self.feats |= feat::MINFILL;
            }
            if resp.b_in + resp.b_out < p.min_base as u128 || resp.q_in + resp.q_out < p.min_quote as u128 {
                return fail("minimum fill not reached", c(5));
            }
        } else if residual > 0 {
            // a residual never crosses a live order
            let live = self.v.book(opp).iter().find(|o| !o.expired(self.slot, self.ts)).map(|o| o.price);
            let crosses = p.kind == Kind::Limit
                && match p.side {
                    Side::Bid => price >= live.unwrap_or(u64::MAX),
                    Side::Ask => price <= live.unwrap_or(0),
                };
            if crosses {
                self.feats |= feat::RESIDUAL_DROPPED;
            } else {
                let seq = match p.side {
                    Side::Bid => !self.v.oseq,
                    Side::Ask => self.v.oseq,
                };
                let cap = self.side_cap(p.side);
                if self.v.book(p.side).len() >= cap {
                    self.feats |= feat::FULLBOOK;
                    let worst = self.v.book(p.side).last().unwrap().clone();
                    let better = match p.side {
                        Side::Bid => price > worst.price,
                        Side::Ask => price < worst.price,
                    };
                    if !better {
                        return fail("book full and order not better than the worst", c(10) | c(24));
                    }
                    self.v.book_mut(p.side).pop();
                    self.ev.push(Ev::Evict { maker: worst.owner, seq: worst.seq, price: worst.price, lots: worst.size });
                    self.unlock(p.side, &worst.owner, worst.price, worst.size);
                    self.feats |= feat::EVICT;
                    if worst.owner == *trader {
                        self.feats |= feat::OWNEVICT;
                    }
                }
                let size = residual as u64;
                let o = Order {
                    price,
                    seq,
                    owner: *trader,
                    size,
                    lvs: p.lvs.unwrap_or(0),
                    lvt: p.lvt.unwrap_or(0),
                };
                let at = self.v.book(p.side).partition_point(|x| match p.side {
                    Side::Bid => x.price >= price,
                    Side::Ask => x.price <= price,
                });
                self.v.book_mut(p.side).insert(at, o);
                self.feats |= feat::POSTED;
                match p.side {
                    Side::Bid => {
                        let n = self.quote(price, residual);
                        let t = self.t(trader);
                        let f = n.min(t.qf);
                        t.qf -= f;
                        t.ql += n;
                        let x = t.ql;
                        self.cap(x);
                        resp.q_post = n;
                        resp.q_free += f;
                    }
                    Side::Ask => {
                        let t = self.t(trader);
                        let f = residual.min(t.bf);
                        t.bf -= f;
                        t.bl += residual;
                        let x = t.bl;
                        self.cap(x);
                        resp.b_post = residual;
                        resp.b_free += f;
                    }
                }
                self.ev.push(Ev::Place { seq, coid: p.coid, price, lots: size });
                if p.lvs.unwrap_or(0) != 0 || p.lvt.unwrap_or(0) != 0 {
                    self.ev.push(Ev::Tif { seq, slot: p.lvs.unwrap_or(0), ts: p.lvt.unwrap_or(0) });
                    self.feats |= feat::TIF;
                }
                self.v.oseq += 1;
                placed = Some((price, seq));
            }
        }
        if registered {
            match p.side {
                Side::Bid => {
                    let t = self.t(trader);
                    let f = t.qf.min(resp.q_in);
                    t.qf -= f;
                    resp.q_free += f;
                }
                Side::Ask => {
                    let t = self.t(trader);
                    let f = t.bf.min(resp.b_in);
                    t.bf -= f;
                    resp.b_free += f;
                }
            }
            if resp.q_free > 0 || resp.b_free > 0 {
                self.feats |= feat::FREEUSED;
            }
            if p.only_deposited {
                match p.side {
                    Side::Bid => {
                        let n = resp.b_out;
                        let t = self.t(trader);
                        t.bf += n;
                        let x = t.bf;
                        self.cap(x);
                        resp.b_out = 0;
                    }
                    Side::Ask => {
                        let n = resp.q_out;
                        let t = self.t(trader);
                        t.qf += n;
                        let x = t.qf;
                        self.cap(x);
                        resp.q_out = 0;
                    }
                }
                if resp.q_dep() > 0 || resp.b_dep() > 0 {
                    return fail("free funds do not cover the order", c(13) | c(12) | c(1));
                }
            }
        } else {
            self.feats |= feat::UNREG;
        }
        p.price = Some(price);
        Ok((placed, resp))
    }

    pub fn need(&mut self, side: Side, price: u64, size: u64) -> u128 {
        match side {
            Side::Bid => self.quote(price, size as u128),
            Side::Ask => size as u128,
        }
    }

    fn reduce_at(&mut self, side: Side, i: usize, size: Option<u64>) -> (u128, u128) {
        let o = self.v.book(side)[i].clone();
        let n = size.unwrap_or(o.size).min(o.size);
        if n == o.size {
            self.v.book_mut(side).remove(i);
        } else {
            self.v.book_mut(side)[i].size -= n;
            self.feats |= feat::PARTIAL;
        }
        self.ev.push(Ev::Reduce { seq: o.seq, price: o.price, removed: n, remaining: o.size - n });
        let x = self.unlock(side, &o.owner, o.price, n);
        match side {
            Side::Bid => (x, 0),
            Side::Ask => (0, x),
        }
    }

    /// returns (quote, base) lots released
    pub fn reduce(&mut self, trader: &Pubkey, id: Oid, size: Option<u64>) -> Res<(u128, u128)> {
        if !self.v.traders.contains_key(trader) {
            return fail("reduce by someone who is not registered", c(11) | c(15));
        }
        let i = self.v.book(id.side).iter().position(|o| o.seq == id.seq && o.price == id.price);
        match i {
            None => {
                self.feats |= feat::MISSING;
                Ok((0, 0))
            }
            Some(i) => {
                if self.v.book(id.side)[i].owner != *trader {
                    return fail("reducing an order of someone else", c(11) | c(3));
                }
                Ok(self.reduce_at(id.side, i, size))
            }
        }
    }

    pub fn cancel_ids(&mut self, trader: &Pubkey, ids: &[Oid]) -> (u128, u128) {
        let mut q = 0;
        let mut b = 0;
        if !self.v.traders.contains_key(trader) {
            self.feats |= feat::UNREG;
            return (0, 0);
        }
        for id in ids {
            if Side::of_seq(id.seq) != id.side {
                self.feats |= feat::MISSING;
                continue;
            }
            let i = self.v.book(id.side).iter().position(|o| o.seq == id.seq && o.price == id.price);
            if let Some(i) = i {
                if self.v.book(id.side)[i].owner == *trader {
                    let (x, y) = self.reduce_at(id.side, i, None);
                    q += x;
                    b += y;
                    continue;
                }
            }
            self.feats |= feat::MISSING;
        }
        (q, b)
    }

    pub fn cancel_all(&mut self, trader: &Pubkey) -> (u128, u128) {
        let mut ids = vec![];
        for s in [Side::Bid, Side::Ask] {
            for o in self.v.book(s) {
                if o.owner == *trader {
                    ids.push(Oid { side: s, price: o.price, seq: o.seq });
                }
            }
        }
        self.cancel_ids(trader, &ids)
    }

    pub fn cancel_up_to(&mut self, trader: &Pubkey, u: &UpTo) -> (u128, u128) {
        let lim = u.tick.unwrap_or(match u.side {
            Side::Ask => u64::MAX,
            Side::Bid => 0,
        });
        let ids: Vec<Oid> = self
            .v
            .book(u.side)
            .iter()
            .take(u.search.map(|x| x as usize).unwrap_or(usize::MAX))
            .filter(|o| o.owner == *trader)
            .filter(|o| match u.side {
                Side::Bid => o.price >= lim,
                Side::Ask => o.price <= lim,
            })
            .take(u.cancel.map(|x| x as usize).unwrap_or(usize::MAX))
            .map(|o| Oid { side: u.side, price: o.price, seq: o.seq })
            .collect();
        self.cancel_ids(trader, &ids)
    }

    /// funds just released are paid out: they leave the free balance again
    pub fn claim(&mut self, trader: &Pubkey, q: u128, b: u128) {
        if let Some(t) = self.v.traders.get_mut(trader) {
            t.qf -= q;
            t.bf -= b;
        }
        if q > 0 || b > 0 {
            self.feats |= feat::PAID_OUT;
        }
    }

    /// returns quote/base lots to deposit
    pub fn multi(
        &mut self,
        trader: &Pubkey,
        m: &Multi,
        wallet_q: Option<u128>,
        wallet_b: Option<u128>,
        ff: bool,
    ) -> Res<(u128, u128)> {
        self.feats |= feat::MULTI;
        let hb = m.bids.iter().map(|x| x.price).max().unwrap_or(0);
        let la = m.asks.iter().map(|x| x.price).min().unwrap_or(u64::MAX);
        if hb >= la {
            return fail("own bids and asks cross", c(20) | c(9));
        }
        let skip = m.mode >= 2;
        let reject = m.mode % 2 == 1;
        let (mut qa, mut ba) = match self.v.traders.get(trader) {
            None => return fail("multi-order by someone who is not registered", c(20) | c(15)),
            Some(t) => (t.qf + wallet_q.unwrap_or(0), t.bf + wallet_b.unwrap_or(0)),
        };
        self.cap(qa);
        self.cap(ba);
        let (mut qd, mut bd) = (0u128, 0u128);
        for side in [Side::Bid, Side::Ask] {
            let mut v: Vec<Cond> = if side == Side::Bid { m.bids.clone() } else { m.asks.clone() };
            match side {
                Side::Bid => v.sort_by(|a, b| b.price.cmp(&a.price)),
                Side::Ask => v.sort_by(|a, b| a.price.cmp(&b.price)),
            }
            let mut g: Vec<(Cond, u128)> = vec![];
            for o in v {
                if let Some((l, n)) = g.last_mut() {
                    if l.price == o.price && l.lvs == o.lvs && l.lvt == o.lvt {
                        *n += o.size as u128;
                        self.feats |= feat::MERGED;
                        continue;
                    }
                }
                let s = o.size as u128;
                g.push((o, s));
            }
            for (o, n) in g {
                if n > MAX {
                    return fail("sum of sizes overflows", c(22) | c(20));
                }
                let pkt = Pkt {
                    kind: Kind::PostOnly,
                    side,
                    price: Some(o.price),
                    base: n as u64,
                    coid: m.coid.unwrap_or(0),
                    reject,
                    only_deposited: ff,
                    lvs: o.lvs,
                    lvt: o.lvt,
                    silent: skip,
                    ..Pkt::new(Kind::PostOnly, side)
                };
                if skip {
                    let need = self.need(side, o.price, n as u64);
                    let have = if side == Side::Bid { qa } else { ba };
                    if have < need {
                        self.feats |= feat::SKIPPED;
                        continue;
                    }
                }
                let (id, resp) = self.place(trader, &pkt)?;
                if let Some(id) = id {
                    self.ids.push(id);
                }
                if skip {
                    qa = qa.saturating_sub(resp.q_dep() + resp.q_free);
                    ba = ba.saturating_sub(resp.b_dep() + resp.b_free);
                }
                qd += resp.q_dep();
                bd += resp.b_dep();
            }
        }
        Ok((qd, bd))
    }
}

/// a*b/d for a,b < 2^64+, d > 0 without intermediate overflow concerns (a may exceed 64 bits)
fn muldiv(a: u128, b: u128, d: u128) -> u128 {
    match a.checked_mul(b) {
        Some(x) => x / d,
        None => (a / d).saturating_mul(b),
    }
}
