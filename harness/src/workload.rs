//! Random but state-aware instruction streams.
use crate::model::c;
use crate::observe::{MView, Order, TState};
use crate::oracle::tag;
use crate::rng::Rng;
use crate::wire::*;
use crate::world::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};

#[derive(Clone, Debug)]
pub struct Prof {
    pub swap: u64,
    pub swap_ff: u64,
    pub limit: u64,
    pub limit_ff: u64,
    pub post: u64,
    pub post_ff: u64,
    pub multi: u64,
    pub multi_ff: u64,
    pub reduce: u64,
    pub cancel_all: u64,
    pub cancel_up_to: u64,
    pub cancel_id: u64,
    pub withdraw: u64,
    pub deposit: u64,
    pub req_seat: u64,
    pub seat_status: u64,
    pub req_seat_auth: u64,
    pub evict: u64,
    pub force: u64,
    pub status: u64,
    pub name: u64,
    pub claim: u64,
    pub collect: u64,
    pub fee_recipient: u64,
    pub log: u64,
    pub donate: u64,
    pub wallet: u64,
    // percentages
    pub tick: u64,
    pub expiry: u64,
    pub own: u64,
    pub hostile: u64,
    pub malform: u64,
    pub extreme: u64,
    pub silent: u64,
    pub wrong_form: u64,
    pub not_authority: u64,
    pub outsider: u64,
    pub two: u64,
    pub ioc_special: u64,
    // shape
    pub prefill: u64,
    pub fullseats: u64,
    pub many: u64,
    pub unreg_seats: u64,
    pub steps: u64,
    pub traders: u64,
    pub cross: u64,
    pub sticky_active: u64,
    pub simple: u64,
    /// a heap of expired orders on top of the book
    pub stale: u64,
    /// a trader holding more than half of all the tokens that can exist
    pub whale: u64,
    pub giant: u64,
    pub sizes: Option<[u64; 3]>,
}

impl Prof {
    pub fn base() -> Prof {
        Prof {
            swap: 12,
            swap_ff: 8,
            limit: 14,
            limit_ff: 12,
            post: 14,
            post_ff: 10,
            multi: 4,
            multi_ff: 4,
            reduce: 6,
            cancel_all: 2,
            cancel_up_to: 5,
            cancel_id: 5,
            withdraw: 3,
            deposit: 5,
            req_seat: 1,
            seat_status: 1,
            req_seat_auth: 1,
            evict: 1,
            force: 1,
            status: 1,
            name: 1,
            claim: 1,
            collect: 2,
            fee_recipient: 1,
            log: 1,
            donate: 1,
            wallet: 3,
            tick: 25,
            expiry: 20,
            own: 15,
            hostile: 2,
            malform: 1,
            extreme: 1,
            silent: 10,
            wrong_form: 2,
            not_authority: 25,
            outsider: 10,
            two: 20,
            ioc_special: 40,
            prefill: 0,
            fullseats: 0,
            many: 1,
            unreg_seats: 10,
            steps: 120,
            traders: 5,
            cross: 35,
            sticky_active: 90,
            simple: 25,
            stale: 1,
            whale: 3,
            giant: 2,
            sizes: None,
        }
    }
}

pub fn build(seed: u64, label: String, pf: &Prof) -> World {
    build_opts(seed, label, pf, false, false)
}
pub fn build_with(seed: u64, label: String, pf: &Prof, ata: bool) -> World {
    build_opts(seed, label, pf, ata, false)
}
pub fn build_hist(seed: u64, label: String, pf: &Prof) -> World {
    build_opts(seed, label, pf, false, true)
}
fn build_opts(seed: u64, label: String, pf: &Prof, ata: bool, hist: bool) -> World {
    let mut r = Rng::new(seed ^ 0x5eed);
    let mut p = if r.pct(pf.simple) { Params::simple() } else { Params::random(&mut r) };
    if let Some(s) = pf.sizes {
        p.sizes = s;
    }
    let two = r.pct(pf.two);
    let full = r.pct(pf.fullseats);
    if full {
        p.sizes = [512, 512, 128];
    }
    let many = pf.sizes.is_none() && !full && r.pct(pf.many);
    if many {
        p.sizes = *r.pick(&[[512, 512, 1025], [512, 512, 1153]]);
    }
    let pre = r.pct(pf.prefill);
    if pre {
        p.lots = p.lots.min(20);
        if p.p0 < 2000 {
            p.p0 += 2000;
        }
    }
    let mut w = World::standard_opts(seed, label, p, two, pf.traders as usize, ata, hist);
    if many {
        crowd(&mut w, &mut r);
    }
    if pre {
        prefill(&mut w, &mut r);
    } else if r.pct(pf.stale) {
        stale(&mut w, &mut r);
    }
    if full {
        // fill the trader registry up to (nearly) its end
        let au = w.authority;
        loop {
            let n = w.view(0).map(|v| v.traders.len()).unwrap_or(128);
            if n >= 128 - r.below(3) as usize {
                break;
            }
            let t = w.person(1 << 30);
            w.inject_seat(0, t, 0);
            let ix = w.seat_status_ix(0, au, t, 1);
            if !w.step(&ix).ok {
                break;
            }
        }
        let lots = w.m[0].p.lots;
        for _ in 0..3 {
            let t = w.person(1 << 33);
            w.inject_seat(0, t, r.below(2));
            w.wallet(0, t, lots * 10, lots * 1000);
            w.traders.push(t);
        }
    }
    if r.pct(pf.unreg_seats) {
        let t = w.person(1 << 33);
        let n = w.m[0].p.lots;
        w.wallet(0, t, n * 10, n * 1000);
        w.inject_seat(0, t, 1);
        w.traders.push(t);
    }
    if r.pct(pf.whale) {
        let t = w.traders[r.idx(w.traders.len())];
        let k = w.m[0].clone();
        for mint in [k.base_mint, k.quote_mint] {
            if r.pct(60) {
                let t = w.toks.get(&(t, mint)).copied();
                if let Some(t) = t {
                    w.donate(&t, 1 << 63);
                }
            }
        }
    }
    if r.pct(pf.giant) {
        giant(&mut w, &mut r);
    }
    w.make_pool();
    w
}

/// a few orders of enormous size, too far off to be traded at once
fn giant(w: &mut World, r: &mut Rng) {
    let k = w.m[0].clone();
    let p0 = k.p.p0.max(8);
    for _ in 0..r.range(1, 4) {
        let t = w.traders[r.idx(w.traders.len())];
        let v = match w.view(0) {
            Some(v) => v,
            None => return,
        };
        let side = if r.pct(60) { Side::Ask } else { Side::Bid };
        let price = if side == Side::Ask { p0.saturating_mul(2) } else { 1 };
        let unit = match side {
            Side::Ask => k.base_lot as u128,
            Side::Bid => (v.quote_of(price, 1) + 1) * k.quote_lot as u128,
        };
        let most = ((1u128 << 58) / unit).min(v.b as u128 * (1 << 60) / (price as u128 * v.tick as u128).max(1)) as u64;
        if most < 1 << 20 {
            return;
        }
        let base = most / (1 + r.below(7)) - r.below(1000);
        w.wallet(0, t, base, v.quote_of(price, base).min(1 << 59) as u64 + 1);
        let mut p = Pkt::new(Kind::PostOnly, side);
        p.price = Some(price);
        p.base = base;
        let ix = w.order_ix(0, t, &p);
        w.step(&ix);
    }
}

/// fills one or both sides close to their capacity
/// hundreds of registered traders before the last of those who act
fn crowd(w: &mut World, r: &mut Rng) {
    let au = w.authority;
    let n = *r.pick(&[126, 254, 254, 510]) + r.below(4);
    for _ in 0..n {
        let t = w.person(1 << 30);
        w.inject_seat(0, t, 0);
        let ix = w.seat_status_ix(0, au, t, 1);
        if !w.step(&ix).ok {
            return;
        }
    }
    let lots = w.m[0].p.lots;
    for _ in 0..3 {
        let t = w.person(1 << 33);
        w.wallet(0, t, lots * 40, lots * 4000);
        w.approve(0, t, false);
        w.traders.push(t);
    }
}

/// many orders at the best prices that have expired before anybody trades, live ones among and behind them
fn stale(w: &mut World, r: &mut Rng) {
    let side = if r.pct(50) { Side::Bid } else { Side::Ask };
    let p0 = w.m[0].p.p0.max(8);
    let n = r.range(40, 190);
    let (slot, ts) = (w.s.bank.slot, w.s.bank.unix_timestamp as u64);
    let by_slot = r.pct(50);
    let mut left = n;
    while left > 0 {
        let k = left.min(r.range(20, 60));
        left -= k;
        let t = w.traders[r.idx(w.traders.len().min(4))];
        let v = match w.view(0) {
            Some(v) => v,
            None => return,
        };
        w.wallet(0, t, 4000, v.quote_of(p0 * 2, 4000).min(1 << 59) as u64);
        let mut v = vec![];
        for i in 0..k {
            let d = if r.pct(85) { 0 } else { r.below(3) };
            let price = match side {
                Side::Bid => p0 - d,
                Side::Ask => p0 + d,
            };
            let live = r.pct(2) || left == 0 && i + 3 > k;
            // distinct limits keep equal prices from being merged
            let (lvs, lvt) = match (live, by_slot) {
                (true, _) => (None, None),
                (_, true) => (Some(slot + 1), Some(ts + 1000 + i)),
                _ => (Some(slot + 1000 + i), Some(ts + 1)),
            };
            v.push(Cond { price, size: 1 + r.below(5), lvs, lvt });
        }
        let (bids, asks) = if side == Side::Bid { (v, vec![]) } else { (vec![], v) };
        let ix = w.multi_ix(0, t, &Multi { bids, asks, coid: None, mode: r.below(4) as u8 }, false);
        w.step(&ix);
    }
    w.s.bank.slot += 2;
    w.s.bank.unix_timestamp += 2;
}

pub fn prefill(w: &mut World, r: &mut Rng) {
    let sides = match r.below(3) {
        0 => vec![Side::Bid],
        1 => vec![Side::Ask],
        _ => vec![Side::Bid, Side::Ask],
    };
    let p0 = w.m[0].p.p0;
    // some orders may be large, if the money for it can exist at all
    let unit = match w.view(0) {
        Some(v) => (v.quote_of(p0 * 2, 1).max(1)).saturating_mul(w.m[0].quote_lot as u128).max(w.m[0].base_lot as u128),
        None => return,
    };
    let room = ((1u128 << 58) / unit.max(1) / 2048).min(1 << 34) as u64;
    let big = if r.pct(40) && room > 1 << 21 { room } else { 0 };
    for side in sides {
        let cap = w.m[0].p.sizes[if side == Side::Bid { 0 } else { 1 }];
        let short = r.below(4);
        let target = cap - short;
        let mut guard = 0;
        loop {
            guard += 1;
            let v = match w.view(0) {
                Some(v) => v,
                None => return,
            };
            let n = v.book(side).len() as u64;
            if n >= target || guard > 120 {
                break;
            }
            let t = w.traders[r.idx(w.traders.len().min(4))];
            let k = (target - n).min(r.range(35, 62));
            let lots = if big > 0 { big.saturating_mul(k + 1) } else { 4000 };
            w.wallet(0, t, lots, v.quote_of(p0 * 2, lots).min(1 << 59) as u64);
            let mut v = vec![];
            for i in 0..k {
                let d = 2 + (n + i) * if r.pct(80) { 1 } else { 0 } + r.below(3);
                let price = match side {
                    Side::Bid => p0.saturating_sub(d).max(1),
                    Side::Ask => p0 + d,
                };
                // distinct expiry keeps equal prices from being merged
                let lvt = if r.pct(30) { Some(w.s.bank.unix_timestamp as u64 + 5 + r.below(500)) } else { None };
                let size = if big > 0 && r.pct(25) { r.range(big / 2, big) } else { 1 + r.below(3) };
                let lvs = if r.pct(20) { {
                    let far = *r.pick(&[500u64, 500, 1 << 40]);
                    Some(w.s.bank.slot + 5 + r.below(far))
                } } else { None };
                v.push(Cond { price, size, lvs, lvt });
            }
            let m = Multi {
                bids: if side == Side::Bid { v.clone() } else { vec![] },
                asks: if side == Side::Ask { v } else { vec![] },
                coid: if r.pct(50) { Some(wide(r)) } else { None },
                mode: r.below(4) as u8,
            };
            let ix = w.multi_ix(0, t, &m, false);
            w.step(&ix);
        }
    }
}

fn anchor(v: &MView, m: &Mkt) -> u64 {
    let bb = v.bids.first().map(|o| o.price);
    let ba = v.asks.first().map(|o| o.price);
    match (bb, ba) {
        (Some(b), Some(a)) => b / 2 + a / 2,
        (Some(b), None) => b.saturating_add(1),
        (None, Some(a)) => a.saturating_sub(1).max(1),
        _ => m.p.p0,
    }
}

pub fn price(r: &mut Rng, v: &MView, m: &Mkt, side: Side, cross: bool) -> u64 {
    let opp = v.book(side.opp());
    let own = v.book(side);
    let jig = |r: &mut Rng, x: u64| -> u64 {
        match r.below(3) {
            0 => x,
            1 => x.saturating_add(1),
            _ => x.saturating_sub(1),
        }
    };
    let x = if cross {
        match r.below(6) {
            0 | 1 if !opp.is_empty() => {
                let i = r.idx(opp.len().min(8));
                jig(r, opp[i].price)
            }
            2 if !opp.is_empty() => opp[r.idx(opp.len())].price,
            3 if !opp.is_empty() => {
                let l = opp.last().unwrap().price;
                match side {
                    Side::Bid => l.saturating_add(r.below(5)),
                    Side::Ask => l.saturating_sub(r.below(5)),
                }
            }
            4 => match side {
                Side::Bid => anchor(v, m).saturating_add(r.below(20)),
                Side::Ask => anchor(v, m).saturating_sub(r.below(20)),
            },
            _ => {
                if opp.is_empty() {
                    anchor(v, m)
                } else {
                    opp[0].price
                }
            }
        }
    } else {
        match r.below(8) {
            0 if !own.is_empty() => own[0].price,
            1 if !own.is_empty() => own[r.idx(own.len())].price,
            2 if !own.is_empty() => jig(r, own.last().unwrap().price),
            3 if !opp.is_empty() => jig(r, opp[0].price),
            7 if !own.is_empty() => jig(r, own[0].price),
            _ => {
                let a = anchor(v, m);
                let w = (a / 20).clamp(3, 30);
                match side {
                    Side::Bid => a.saturating_sub(r.below(w)),
                    Side::Ask => a.saturating_add(r.below(w)),
                }
            }
        }
    };
    x.max(if r.pct(2) { 0 } else { 1 })
}

pub fn size(r: &mut Rng, v: &MView, m: &Mkt, side: Side) -> u64 {
    let opp = v.book(side.opp());
    match r.below(8) {
        0 => 1,
        1 if !opp.is_empty() => opp[0].size,
        2 if !opp.is_empty() => {
            let k = 1 + r.idx(opp.len().min(6));
            let s: u64 = opp[..k].iter().fold(0u64, |a, o| a.saturating_add(o.size));
            match r.below(3) {
                0 => s,
                1 => s.saturating_add(1),
                _ => s.saturating_sub(1).max(1),
            }
        }
        3 => r.range(1, m.p.lots * 8),
        4 if r.pct(10) => 0,
        _ => r.range(1, m.p.lots.max(1)),
    }
}

fn validity(r: &mut Rng, w: &World, pf: &Prof) -> (Option<u64>, Option<u64>) {
    if !r.pct(pf.expiry) {
        return (None, None);
    }
    let s = w.s.bank.slot;
    let t = w.s.bank.unix_timestamp as u64;
    let pick = |r: &mut Rng, now: u64| match r.below(12) {
        0 => now.saturating_sub(1),
        1 => now.saturating_sub(r.below(4)),
        2 | 3 => now,
        4 | 5 => now + 1,
        6 => 0,
        7 => u64::MAX,
        _ => now + r.below(8),
    };
    match r.below(5) {
        0 | 1 => (Some(pick(r, s)), None),
        2 | 3 => (None, Some(pick(r, t))),
        _ => (Some(pick(r, s)), Some(pick(r, t))),
    }
}

fn extremise(r: &mut Rng, p: &mut Pkt, v: &MView) {
    for _ in 0..1 + r.below(2) {
        match r.below(8) {
            0 => p.price = Some(r.extreme()),
            1 => p.base = r.extreme(),
            2 if p.kind == Kind::Ioc && r.pct(50) => {
                // a target or budget around where adding the fee no longer fits
                let top = u64::MAX / v.b.max(1) as u64;
                let w = (top as u128 * (v.bps as u128 * 2 + 1) / 10000).min(top as u128) as u64;
                p.quote = if r.pct(50) {
                    top - r.below(w.max(1))
                } else {
                    // the very edge
                    let fee = (u64::MAX as u128 * v.bps as u128 + 9999) / 10000;
                    (((u64::MAX as u128).saturating_sub(fee) / v.b.max(1) as u128) as u64).saturating_add(r.below(200))
                };
                p.base = 0;
                p.min_base = 0;
                p.min_quote = 0;
                return;
            }
            2 => p.quote = r.extreme(),
            3 => p.min_base = r.extreme(),
            4 => p.min_quote = r.extreme(),
            5 => p.match_limit = Some(r.extreme()),
            6 => p.lvs = Some(r.extreme()),
            _ => p.lvt = Some(r.extreme()),
        }
    }
    if p.kind != Kind::Ioc {
        p.quote = 0;
        p.min_base = 0;
        p.min_quote = 0;
        if p.price.is_none() {
            p.price = Some(1);
        }
    }
    if p.kind == Kind::PostOnly {
        p.match_limit = None;
    }
}

pub fn packet(r: &mut Rng, w: &World, v: &MView, m: usize, kind: Kind, ff: bool, who: &Pubkey, pf: &Prof) -> Pkt {
    let mk = &w.m[m];
    let mut side = if r.pct(50) { Side::Bid } else { Side::Ask };
    if kind == Kind::Ioc && v.book(side.opp()).is_empty() && r.pct(70) {
        side = side.opp();
    }
    // steer towards meeting own orders
    if r.pct(pf.own) && kind != Kind::PostOnly {
        if v.bids.iter().take(6).any(|o| o.owner == *who) {
            side = Side::Ask;
        } else if v.asks.iter().take(6).any(|o| o.owner == *who) {
            side = Side::Bid;
        }
    }
    let cross = match kind {
        Kind::Ioc => r.pct(92),
        Kind::Limit => r.pct(pf.cross + 10),
        Kind::PostOnly => r.pct(pf.cross / 2),
    };
    let mut p = Pkt::new(kind, side);
    p.price = Some(price(r, v, mk, side, cross));
    p.base = size(r, v, mk, side);
    p.only_deposited = ff;
    p.coid = wide(r);
    p.stb = *r.pick(&[Stb::Abort, Stb::CancelProvide, Stb::CancelProvide, Stb::DecrementTake, Stb::DecrementTake]);
    let (a, b) = validity(r, w, pf);
    p.lvs = a;
    p.lvt = b;
    p.reject = r.pct(50);
    p.silent = r.pct(pf.silent);
    if kind != Kind::PostOnly && r.pct(20) {
        p.match_limit = Some(if r.pct(12) { r.below(90) } else { r.below(6) });
    }
    if kind == Kind::Ioc {
        if r.pct(15) {
            p.price = None;
        }
        let opp = v.book(side.opp());
        if r.pct(pf.ioc_special) && !opp.is_empty() {
            // a quote budget (or target) at the edge of what the book costs
            let k = 1 + r.idx(opp.len().min(6));
            let mut adj: u128 = 0;
            let mut lots: u128 = 0;
            for o in opp.iter().take(k) {
                let n = if r.pct(70) { o.size } else { 1 + r.below(o.size.max(1)) };
                adj = adj.saturating_add((o.price as u128 * v.tick as u128).saturating_mul(n as u128)).min(1 << 110);
                lots += n as u128;
            }
            let fee = (adj * v.bps as u128 + 9999) / 10000;
            let b = v.b.max(1) as u128;
            let q = match side {
                Side::Bid => (adj + fee + b - 1) / b,
                Side::Ask => adj.saturating_sub(fee) / b,
            };
            let q = (q.min(u64::MAX as u128) as u64).saturating_add(r.below(5)).saturating_sub(2);
            if r.pct(70) {
                p.quote = q;
                p.base = if r.pct(5) { p.base } else { 0 };
                if r.pct(40) {
                    p.min_base = (lots as u64).saturating_add(r.below(3)).saturating_sub(1);
                }
                if r.pct(20) {
                    p.min_quote = q.saturating_add(r.below(3)).saturating_sub(1);
                }
            } else {
                p.base = (lots as u64 + r.below(3)).saturating_sub(1);
                if r.pct(60) {
                    p.min_base = (lots as u64).saturating_add(r.below(3)).saturating_sub(1);
                }
                if r.pct(40) {
                    p.min_quote = q.saturating_add(r.below(3)).saturating_sub(1);
                }
            }
        } else if r.pct(10) {
            p.quote = r.range(0, 1000);
            if r.pct(50) {
                p.base = 0;
            }
        }
    }
    // sizes at the edge of what the trader can fund
    if kind != Kind::Ioc && r.pct(25) {
        if let Some(t) = v.traders.get(who) {
            let mut have = match side {
                Side::Bid => t.qf,
                Side::Ask => t.bf,
            };
            if !ff {
                let mint = if side == Side::Bid { mk.quote_mint } else { mk.base_mint };
                let lot = if side == Side::Bid { mk.quote_lot } else { mk.base_lot };
                let x = w.s.bank.get(&w.tok(who, &mint)).and_then(crate::oracle::tok_amount).map(|x| x.2).unwrap_or(0);
                have += x as u128 / lot.max(1) as u128;
            }
            let n = match side {
                Side::Ask => have,
                Side::Bid => have.saturating_mul(v.b.max(1) as u128) / (p.price.unwrap_or(1).max(1) as u128 * v.tick.max(1) as u128).max(1),
            };
            let n = n.min(1 << 40) as u64;
            p.base = match r.below(4) {
                0 => n,
                1 => n + 1,
                2 => n.saturating_sub(1).max(1),
                _ => n / 2 + 1,
            };
        }
    }
    if r.pct(pf.extreme) {
        extremise(r, &mut p, v);
    }
    p
}

/// a client order id: any of its 128 bits may matter
fn wide(r: &mut Rng) -> u128 {
    match r.below(20) {
        0 => u128::MAX >> r.below(8),
        1 => 1u128 << r.below(128),
        2..=8 => (r.next() as u128) << 64 | r.next() as u128,
        _ => r.next() as u128,
    }
}

pub fn multi(r: &mut Rng, w: &World, v: &MView, m: usize, pf: &Prof) -> Multi {
    let mk = &w.m[m];
    let mut out = Multi { bids: vec![], asks: vec![], coid: None, mode: r.below(4) as u8 };
    if r.pct(40) {
        out.coid = Some(wide(r));
    }
    let a = anchor(v, mk);
    for side in [Side::Bid, Side::Ask] {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            5 if r.pct(8) => r.below(70),
            5 => r.below(25),
            _ => r.below(6),
        };
        let tight = r.pct(60);
        for _ in 0..n {
            let pr = if tight {
                match side {
                    Side::Bid => a.saturating_sub(r.below(5)).max(1),
                    Side::Ask => a.saturating_add(1 + r.below(5)),
                }
            } else {
                let cross = r.pct(20);
                price(r, v, mk, side, cross)
            };
            let sz = if r.pct(2) { 0 } else { r.range(1, mk.p.lots.max(1)) };
            let (x, y) = if r.pct(50) { validity(r, w, pf) } else { (None, None) };
            out_push(&mut out, side, Cond { price: pr, size: sz, lvs: x, lvt: y });
            if r.pct(30) {
                // duplicates that may or may not merge
                let sz = r.range(1, mk.p.lots.max(1));
                let (x2, y2) = if r.pct(70) { (x, y) } else { validity(r, w, pf) };
                out_push(&mut out, side, Cond { price: pr, size: sz, lvs: x2, lvt: y2 });
            }
        }
    }
    if r.pct(50) {
        r.shuffle(&mut out.bids);
        r.shuffle(&mut out.asks);
    }
    if r.pct(pf.extreme) && (!out.bids.is_empty() || !out.asks.is_empty()) {
        let v = if out.bids.is_empty() { &mut out.asks } else { &mut out.bids };
        let i = r.idx(v.len());
        match r.below(3) {
            0 => v[i].price = r.extreme(),
            1 => v[i].size = r.extreme(),
            _ => v[i].lvs = Some(r.extreme()),
        }
    }
    if r.pct(pf.extreme) {
        out.mode = r.below(256) as u8;
    }
    out
}
fn out_push(o: &mut Multi, s: Side, c: Cond) {
    match s {
        Side::Bid => o.bids.push(c),
        Side::Ask => o.asks.push(c),
    }
}

pub fn oid(r: &mut Rng, w: &World, v: &MView, m: usize, who: &Pubkey) -> Oid {
    let own: Vec<&crate::observe::Order> = v.bids.iter().chain(v.asks.iter()).filter(|o| o.owner == *who).collect();
    let any: Vec<&crate::observe::Order> = v.bids.iter().chain(v.asks.iter()).collect();
    let of = |o: &crate::observe::Order| Oid { side: Side::of_seq(o.seq), price: o.price, seq: o.seq };
    let mut id = match r.below(10) {
        0..=6 if !own.is_empty() => of(own[r.idx(own.len())]),
        7 if !any.is_empty() => of(any[r.idx(any.len())]),
        8 => w
            .ids
            .iter()
            .filter(|x| x.0 == m)
            .nth(r.idx(w.ids.len().max(1)))
            .map(|x| x.1)
            .unwrap_or(Oid { side: Side::Bid, price: 1, seq: 1 }),
        _ => {
            if any.is_empty() {
                Oid { side: Side::Ask, price: r.below(100), seq: r.below(50) }
            } else {
                of(any[r.idx(any.len())])
            }
        }
    };
    if r.pct(6) {
        match r.below(4) {
            0 => id.side = id.side.opp(),
            1 => id.price = id.price.wrapping_add(1),
            2 => id.seq = id.seq.wrapping_add(1),
            _ => id.seq = !id.seq,
        }
    }
    id
}

fn up_to(r: &mut Rng, v: &MView, m: &Mkt) -> UpTo {
    let side = if r.pct(50) { Side::Bid } else { Side::Ask };
    // bounds far beyond the book, some with few low bits
    let many = |r: &mut Rng| match r.below(5) {
        0 => u32::MAX - r.below(3) as u32,
        1 => 1u32 << r.range(7, 31),
        2 => 256 * r.range(1, 400) as u32 + r.below(3) as u32,
        3 => 65536 * r.range(1, 400) as u32 + r.below(3) as u32,
        _ => r.next() as u32,
    };
    UpTo {
        side,
        tick: if r.pct(50) {
            let own = v.book(side);
            Some(if own.is_empty() || r.pct(20) {
                price(r, v, m, side, false)
            } else {
                let x = own[r.idx(own.len().min(12))].price;
                x.saturating_add(r.below(3)).saturating_sub(1)
            })
        } else {
            None
        },
        search: if r.pct(50) { Some(if r.pct(12) { many(r) } else { r.below(v.book(side).len() as u64 + 2) as u32 }) } else { None },
        cancel: if r.pct(50) { Some(if r.pct(12) { many(r) } else if r.pct(15) { r.below(100) as u32 } else { r.below(5) as u32 }) } else { None },
    }
}

/// advances the clock, sometimes exactly to (or just past) the validity limit of a resting order
pub fn tick_clock(w: &mut World, r: &mut Rng) {
    let s = w.s.bank.slot;
    let t = w.s.bank.unix_timestamp as u64;
    match r.below(5) {
        0 => w.s.bank.slot += r.below(4),
        1 => w.s.bank.unix_timestamp += r.below(4) as i64,
        2 => {
            w.s.bank.slot += r.below(3);
            w.s.bank.unix_timestamp += r.below(3) as i64;
        }
        _ => {
            if let Some(v) = w.view(0) {
                let all: Vec<_> = v.bids.iter().take(8).chain(v.asks.iter().take(8)).filter(|o| o.lvs != 0 || o.lvt != 0).cloned().collect();
                if !all.is_empty() {
                    let o = &all[r.idx(all.len())];
                    let d = r.below(2);
                    if o.lvs >= s && o.lvs < s + 1000 && o.lvs != 0 {
                        w.s.bank.slot = o.lvs + d;
                    } else if o.lvt >= t && o.lvt < t + 1000 && o.lvt != 0 {
                        w.s.bank.unix_timestamp = (o.lvt + d) as i64;
                    }
                }
            }
        }
    }
}

pub fn admin_of(w: &mut World, m: usize) -> Pubkey {
    w.view(m).map(|v| v.hdr.authority).unwrap_or(w.authority)
}

pub fn some_signer(w: &mut World, r: &mut Rng, m: usize, pf: &Prof) -> Pubkey {
    if r.pct(pf.not_authority) {
        match r.below(5) {
            0 => w.attacker,
            1 => w.view(m).map(|v| v.hdr.successor).filter(|s| *s != Pubkey::default()).unwrap_or(w.attacker),
            2 => w.authority,
            3 => w.fee_recipient,
            _ => w.traders[r.idx(w.traders.len())],
        }
    } else {
        admin_of(w, m)
    }
}

/// everybody leaves: whatever happened before, each trader gets exactly what the market owed him with
/// his own signature alone, and then the authority can empty and delete the closed market
pub fn exit(w: &mut World, r: &mut Rng) {
    let m = r.idx(w.m.len());
    let au = admin_of(w, m);
    // the state in which they have to leave
    let path: &[u8] = *r.pick(&[&[][..], &[], &[1], &[2], &[3], &[3, 4], &[2, 3, 4]]);
    for st in path {
        let ix = w.status_ix(m, au, *st, None);
        w.step(&ix);
    }
    if r.pct(30) {
        w.s.bank.slot += r.range(1, 5000);
        w.s.bank.unix_timestamp += r.range(1, 5000) as i64;
    }
    let v = match w.view(m) {
        Some(v) if v.hdr.status >= 1 && v.hdr.status <= 4 => v,
        _ => return,
    };
    let status = v.hdr.status;
    let mut all: Vec<Pubkey> = v.traders.keys().copied().collect();
    let complete = all.len() <= 40;
    r.shuffle(&mut all);
    // those with something to lose first
    all.sort_by_key(|t| {
        let s = v.traders[t];
        s.qf + s.ql + s.bf + s.bl == 0
    });
    all.truncate(40);
    let k = w.m[m].clone();
    for t in all {
        if r.pct(10) {
            let ix = w.seat_status_ix(m, au, t, *r.pick(&[0u8, 2]));
            w.step(&ix);
        }
        let v = match w.view(m) {
            Some(v) => v,
            None => return,
        };
        let s = match v.traders.get(&t) {
            Some(s) => *s,
            None => continue,
        };
        let own: Vec<Order> = v.bids.iter().chain(v.asks.iter()).filter(|o| o.owner == t).cloned().collect();
        let (owed_q, owed_b) = ((s.qf + s.ql) * k.quote_lot as u128, (s.bf + s.bl) * k.base_lot as u128);
        let had = (w.newkey(), w.newkey());
        w.put_token(&had.0, &t, &k.quote_mint, 0);
        w.put_token(&had.1, &t, &k.base_mint, 0);
        let old = (w.toks.insert((t, k.quote_mint), had.0), w.toks.insert((t, k.base_mint), had.1));
        let mut ways: Vec<Instruction> = vec![];
        let how = r.below(6);
        match how {
            0 => ways.push(w.ix(tag::CANCEL_ALL, m, t, vec![])),
            1 => ways.push(w.ix(tag::CANCEL_ALL_FF, m, t, vec![])),
            2 => {
                for ch in own.chunks(20) {
                    let ids: Vec<Oid> = ch.iter().map(|o| Oid { side: Side::of_seq(o.seq), price: o.price, seq: o.seq }).collect();
                    ways.push(w.ix(if r.pct(50) { tag::CANCEL_ID } else { tag::CANCEL_ID_FF }, m, t, enc_ids(&ids)));
                }
            }
            3 if own.len() < 40 => {
                for o in &own {
                    let id = Oid { side: Side::of_seq(o.seq), price: o.price, seq: o.seq };
                    let n = *r.pick(&[o.size, u64::MAX]);
                    ways.push(w.ix(if r.pct(50) { tag::REDUCE } else { tag::REDUCE_FF }, m, t, enc_reduce(id, n)));
                }
            }
            _ => {
                for side in [Side::Bid, Side::Ask] {
                    let u = UpTo { side, tick: None, search: None, cancel: None };
                    ways.push(w.ix(if r.pct(50) { tag::CANCEL_UP_TO } else { tag::CANCEL_UP_TO_FF }, m, t, u.encode()));
                }
            }
        }
        for ix in ways {
            let o = w.step(&ix);
            if !o.ok {
                w.fail(c(25), format!("a trader cannot take his orders back in status {}: {}", status, o.err));
            }
        }
        let free = w.view(m).and_then(|v| v.traders.get(&t).copied()).unwrap_or_default();
        if free.ql != 0 || free.bl != 0 {
            w.fail(c(25), format!("after all his orders are cancelled a trader has {} quote and {} base lots locked", free.ql, free.bl));
        }
        if free.qf != 0 || free.bf != 0 {
            let (q, b) = match r.below(4) {
                0 => (Some(free.qf as u64), Some(free.bf as u64)),
                1 => (Some(u64::MAX), Some(u64::MAX)),
                _ => (None, None),
            };
            let ix = w.withdraw_ix(m, t, q, b);
            let o = w.step(&ix);
            if !o.ok {
                w.fail(c(25), format!("a trader cannot withdraw in status {}: {}", status, o.err));
            }
        }
        let v = match w.view(m) {
            Some(v) => v,
            None => {
                w.fail(c(25), "the market vanished while somebody was leaving".into());
                return;
            }
        };
        let amt = |w: &World, k: &Pubkey| w.s.bank.get(k).and_then(crate::oracle::tok_amount).map(|x| x.2).unwrap_or(0) as u128;
        let got = (amt(w, &had.0), amt(w, &had.1));
        if got != (owed_q, owed_b) {
            w.fail(c(25), format!("a trader who was owed {} quote and {} base atoms left with {:?}", owed_q, owed_b, got));
        }
        let now = v.traders.get(&t).copied().unwrap_or_default();
        if now != TState::default() || v.bids.iter().chain(v.asks.iter()).any(|o| o.owner == t) {
            w.fail(c(25), format!("a trader who left still has {:?} on the market", now));
        }
        let sig = crate::rng::mix(&[status, how, own.len().min(5) as u64, (s.qf > 0) as u64, (s.bf > 0) as u64, (s.ql > 0) as u64, (s.bl > 0) as u64, own.iter().any(|o| o.lvs != 0 || o.lvt != 0) as u64]);
        w.s.stats.note(25, sig, || format!("a trader with {} orders left in status {} with all of {:?}", own.len(), status, s));
        if let (Some(a), Some(b)) = old {
            w.toks.insert((t, k.quote_mint), a);
            w.toks.insert((t, k.base_mint), b);
        }
    }
    // the market itself
    let v = match w.view(m) {
        Some(v) => v,
        None => return,
    };
    if !complete {
        return;
    }
    if !v.bids.is_empty() || !v.asks.is_empty() {
        w.fail(c(25), format!("everybody left, {} bids and {} asks remain", v.bids.len(), v.asks.len()));
    }
    let (b, q) = v.owed();
    if b != 0 || q != v.unclaimed {
        w.fail(c(25), format!("everybody left, the market still owes {} base and {} quote lots of which {} are fees", b, q, v.unclaimed));
    }
    if r.pct(50) {
        return;
    }
    let spare = crate::monitor::excess(&w.s.bank, &v);
    let mut all: Vec<Pubkey> = v.traders.keys().copied().collect();
    let mut seated = true;
    for st in [3u8, 4] {
        let ix = w.status_ix(m, au, st, None);
        w.step(&ix);
    }
    r.shuffle(&mut all);
    for t in all {
        // traders whom the workload registered without a seat cannot be evicted
        let key = w.seat(m, t);
        let st = match w.s.bank.get(&key).and_then(crate::oracle::seat_view) {
            Some(s) => s.status,
            None => {
                seated = false;
                continue;
            }
        };
        if st == 1 {
            let ix = w.seat_status_ix(m, au, t, *r.pick(&[0u8, 2]));
            let o = w.step(&ix);
            if !o.ok {
                w.fail(c(25), format!("the authority cannot take a seat back: {}", o.err));
            }
        }
        for mint in [k.base_mint, k.quote_mint] {
            let a = w.newkey();
            w.put_token(&a, &t, &mint, 0);
            w.toks.insert((t, mint), a);
        }
        let ix = w.authorized_ix(tag::EVICT, m, au, t, vec![]);
        let o = w.step(&ix);
        if !o.ok {
            w.fail(c(25), format!("the authority cannot evict a trader who has left: {}", o.err));
        }
    }
    let fr = match w.view(m) {
        Some(v) => v.hdr.fee_recipient,
        None => return,
    };
    if v.unclaimed > 0 {
        let a = w.newkey();
        w.put_token(&a, &fr, &k.quote_mint, 0);
        w.toks.insert((fr, k.quote_mint), a);
        let ix = w.collect_ix(m, au, fr);
        let o = w.step(&ix);
        if !o.ok {
            w.fail(c(25), format!("the last fees cannot be collected: {}", o.err));
        }
    }
    let left = |w: &World, k: &Pubkey| w.s.bank.get(k).and_then(crate::oracle::tok_amount).map(|x| x.2).unwrap_or(0) as i128;
    let rest = (left(w, &k.base_vault), left(w, &k.quote_vault));
    if rest != spare {
        w.fail(c(25), format!("the vaults of an empty market hold {:?}, third parties gave {:?}", rest, spare));
    }
    if seated {
        let rc = if r.pct(50) { None } else { Some(w.newkey()) };
        let ix = w.status_ix(m, au, 5, rc);
        let o = w.step(&ix);
        if !o.ok {
            w.fail(c(25), format!("an empty closed market cannot be deleted: {}", o.err));
        }
        w.s.stats.note(25, crate::rng::mix(&[77, spare.0.min(1) as u64, spare.1.min(1) as u64, rc.is_some() as u64]), || "an emptied market was deleted".to_string());
    }
}

/// the end of a market: everybody out and deletion, at first perhaps with something left behind
pub fn winddown(w: &mut World, r: &mut Rng) {
    let m = 0;
    let left = r.below(8);
    let au = admin_of(w, m);
    let go = |w: &mut World, st: u8| {
        let ix = w.status_ix(m, au, st, None);
        w.step(&ix)
    };
    if left < 2 {
        // a fee of very few lots
        for st in [2, 1] {
            go(w, st);
        }
        for t in w.traders.clone() {
            let ix = w.ix(tag::CANCEL_ALL_FF, m, t, vec![]);
            w.step(&ix);
        }
        let v = match w.view(m) {
            Some(v) => v,
            None => return,
        };
        let ix = w.collect_ix(m, au, v.hdr.fee_recipient);
        w.step(&ix);
        let (a, b) = (w.traders[0], w.traders[w.traders.len() - 1]);
        for t in [a, b] {
            w.wallet(m, t, 100, 100 * (v.quote_of(w.m[m].p.p0, 100).min(1 << 40) as u64 + 1));
        }
        let n = r.range(1, 3);
        let mut p = Pkt::new(Kind::Limit, Side::Ask);
        p.price = Some(w.m[m].p.p0.min(1 << 40));
        p.base = n;
        let ix = w.order_ix(m, a, &p);
        w.step(&ix);
        p.kind = Kind::Ioc;
        p.side = Side::Bid;
        let ix = w.order_ix(m, b, &p);
        w.step(&ix);
    }
    go(w, 3);
    go(w, 4);
    if r.pct(40) {
        let k = w.m[m].key;
        w.top_up(&k, r.below(100_000));
    }
    if left == 2 {
        let k = if r.pct(50) { w.m[m].base_vault } else { w.m[m].quote_vault };
        w.donate(&k, 1 + r.below(50));
    }
    for round in 0..2 {
        let mut all: Vec<Pubkey> = match w.view(m) {
            Some(v) => v.traders.keys().copied().collect(),
            None => return,
        };
        r.shuffle(&mut all);
        for (i, t) in all.iter().enumerate() {
            let spare = round == 0 && i == 0;
            if !(spare && left == 3 && r.pct(50)) {
                let ix = w.seat_status_ix(m, au, *t, if r.pct(10) { 2 } else { 0 });
                w.step(&ix);
            }
            if !(spare && left == 4) {
                for side in [Side::Bid, Side::Ask] {
                    let u = UpTo { side, tick: None, search: None, cancel: None };
                    let ix = w.authorized_ix(tag::FORCE_CANCEL, m, au, *t, u.encode());
                    w.step(&ix);
                }
            }
            if !(spare && left == 3) {
                let ix = w.authorized_ix(tag::EVICT, m, au, *t, vec![]);
                w.step(&ix);
            }
        }
        if round == 1 || left > 1 {
            if let Some(v) = w.view(m) {
                let ix = w.collect_ix(m, au, v.hdr.fee_recipient);
                w.step(&ix);
            }
        }
        let rc = match r.below(4) {
            0 => Some(*r.pick(&w.outsiders)),
            1 => Some(w.newkey()),
            2 => Some(w.attacker),
            _ => None,
        };
        let ix = w.status_ix(m, au, 5, rc);
        w.step(&ix);
    }
    // the market is gone (or not, if an account of somebody stood in the way)
    let t = w.traders[0];
    let ix = w.deposit_ix(m, t, 1, 1);
    w.step(&ix);
    go(w, 1);
}

/// one instruction (None: only the environment changed)
/// the next instruction of a history; a generator that trips over an odd state (numbers that do not
/// fit, say) gives none
pub fn next(w: &mut World, r: &mut Rng, pf: &Prof) -> Option<Instruction> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| generate(w, r, pf))) {
        Ok(x) => x,
        Err(_) => {
            *w.s.stats.extra.entry("generator gave up".into()).or_default() += 1;
            None
        }
    }
}

fn generate(w: &mut World, r: &mut Rng, pf: &Prof) -> Option<Instruction> {
    if r.pct(pf.tick) {
        tick_clock(w, r);
    }
    let m = if w.m.len() > 1 && r.pct(15) { 1 } else { 0 };
    let v = match w.view(m) {
        Some(v) => v,
        None => {
            if m == 1 {
                return None;
            }
            match w.view(0) {
                Some(v) => v,
                None => return None,
            }
        }
    };
    let who = if r.pct(pf.outsider) {
        *r.pick(&w.outsiders)
    } else {
        w.traders[r.idx(w.traders.len())]
    };
    let weights = [
        pf.swap, pf.swap_ff, pf.limit, pf.limit_ff, pf.post, pf.post_ff, pf.multi, pf.multi_ff, pf.reduce, pf.cancel_all,
        pf.cancel_up_to, pf.cancel_id, pf.withdraw, pf.deposit, pf.req_seat, pf.seat_status, pf.req_seat_auth, pf.evict, pf.force,
        pf.status, pf.name, pf.claim, pf.collect, pf.fee_recipient, pf.log, pf.donate, pf.wallet,
    ];
    let k = r.weighted(&weights);
    let ix = match k {
        0..=5 => {
            let (kind, ff) = match k {
                0 => (Kind::Ioc, false),
                1 => (Kind::Ioc, true),
                2 => (Kind::Limit, false),
                3 => (Kind::Limit, true),
                4 => (Kind::PostOnly, false),
                _ => (Kind::PostOnly, true),
            };
            let p = packet(r, w, &v, m, kind, ff, &who, pf);
            let mut ix = w.order_ix(m, who, &p);
            if r.pct(pf.wrong_form) {
                // right accounts, packet of another form
                let mut q = p;
                match r.below(3) {
                    0 => q.only_deposited = !q.only_deposited,
                    1 => q.kind = *r.pick(&[Kind::Ioc, Kind::Limit, Kind::PostOnly]),
                    _ => {
                        q.kind = *r.pick(&[Kind::Ioc, Kind::Limit, Kind::PostOnly]);
                        q.only_deposited = !q.only_deposited;
                    }
                }
                if q.kind != Kind::Ioc && q.price.is_none() {
                    q.price = Some(1);
                }
                let mut d = vec![ix.data[0]];
                d.extend(q.encode());
                ix.data = d;
            }
            ix
        }
        6 | 7 => {
            let p = multi(r, w, &v, m, pf);
            w.multi_ix(m, who, &p, k == 7)
        }
        8 => {
            let id = oid(r, w, &v, m, &who);
            let have = v.book(id.side).iter().find(|o| o.seq == id.seq).map(|o| o.size).unwrap_or(5);
            let s = match r.below(7) {
                0 => have,
                1 => have.saturating_add(1),
                2 => have.saturating_sub(1),
                3 => 1,
                4 => u64::MAX,
                5 => r.below(have.max(1) + 1),
                _ => {
                    if r.pct(20) {
                        0
                    } else {
                        have / 2 + 1
                    }
                }
            };
            let t = if r.pct(50) { tag::REDUCE } else { tag::REDUCE_FF };
            w.ix(t, m, who, enc_reduce(id, s))
        }
        9 => w.ix(if r.pct(50) { tag::CANCEL_ALL } else { tag::CANCEL_ALL_FF }, m, who, vec![]),
        10 => {
            let u = up_to(r, &v, &w.m[m]);
            w.ix(if r.pct(50) { tag::CANCEL_UP_TO } else { tag::CANCEL_UP_TO_FF }, m, who, u.encode())
        }
        11 => {
            let n = if r.pct(10) { r.below(70) } else { r.below(6) };
            let mut ids: Vec<Oid> = if n > 6 {
                // many of the trader's own orders at once
                let mut own: Vec<Oid> =
                    v.bids.iter().chain(v.asks.iter()).filter(|o| o.owner == who).map(|o| Oid { side: Side::of_seq(o.seq), price: o.price, seq: o.seq }).collect();
                if r.pct(70) {
                    r.shuffle(&mut own);
                }
                own.truncate(n as usize);
                own
            } else {
                (0..n).map(|_| oid(r, w, &v, m, &who)).collect()
            };
            if !ids.is_empty() && r.pct(15) {
                ids.push(ids[0]);
            }
            w.ix(if r.pct(50) { tag::CANCEL_ID } else { tag::CANCEL_ID_FF }, m, who, enc_ids(&ids))
        }
        12 => {
            let t = v.traders.get(&who).copied().unwrap_or_default();
            let amt = |r: &mut Rng, f: u128| match r.below(6) {
                0 => None,
                1 => Some(f as u64),
                2 => Some(f as u64 + 1),
                3 => Some(u64::MAX),
                4 => Some(0),
                _ => Some(r.below(f as u64 + 1)),
            };
            let (q, b) = (amt(r, t.qf), amt(r, t.bf));
            w.withdraw_ix(m, who, q, b)
        }
        13 => {
            let mk = w.m[m].clone();
            let bal = |w: &World, mint: &Pubkey, lot: u64| {
                w.s.bank.get(&w.tok(&who, mint)).and_then(crate::oracle::tok_amount).map(|x| x.2).unwrap_or(0) / lot.max(1)
            };
            let (hb, hq) = (bal(w, &mk.base_mint, mk.base_lot), bal(w, &mk.quote_mint, mk.quote_lot));
            let amt = |r: &mut Rng, h: u64| match r.below(9) {
                0 => h,
                1 => h.saturating_add(1),
                2 => 0,
                3 if r.pct(20) => r.extreme(),
                _ => r.below(h / 4 + 2),
            };
            let (q, b) = (amt(r, hq), amt(r, hb));
            w.deposit_ix(m, who, q, b)
        }
        14 => {
            let k = if r.pct(60) {
                let l = *r.pick(&[1u64 << 30, 1 << 33, 1_781_760, 1_781_760 + 890_880, 1_781_759]);
                let p = w.person(l);
                let seat = w.seat(m, p);
                if r.pct(30) {
                    let l = *r.pick(&[1u64, 890_880, 1_781_759, 1_781_760, 5_000_000]);
                    w.s.bank.accounts.insert(seat, crate::svm::Account::system(l));
                }
                if w.outsiders.len() < 12 {
                    let lots = w.m[m].p.lots;
                    w.wallet(m, p, lots * 5, lots * 100);
                    w.outsiders.push(p);
                }
                p
            } else if r.pct(50) {
                who
            } else {
                *r.pick(&w.outsiders)
            };
            w.ix(tag::REQ_SEAT, m, k, vec![])
        }
        15 => {
            let s = some_signer(w, r, m, pf);
            let t = if r.pct(60) { who } else { *r.pick(&w.outsiders) };
            let st = if r.pct(5) { r.below(6) as u8 } else { *r.pick(&[0u8, 1, 1, 0, 2]) };
            if st == 2 && r.pct(70) {
                w.seat_status_ix(m, s, t, 0)
            } else {
                w.seat_status_ix(m, s, t, st)
            }
        }
        16 => {
            let s = some_signer(w, r, m, pf);
            let t = if r.pct(70) { w.newkey() } else { who };
            let payer = if r.pct(60) { s } else { *r.pick(&w.outsiders) };
            let mut ix = w.req_seat_auth_ix(m, s, payer, t);
            if r.pct(10) && pf.hostile > 0 {
                ix.accounts[4].is_signer = false;
            }
            if r.pct(10) && pf.hostile > 0 {
                ix.accounts[4].is_writable = false;
            }
            ix
        }
        17 | 18 => {
            let s = some_signer(w, r, m, pf);
            let t = if r.pct(80) { who } else { *r.pick(&w.outsiders) };
            if r.pct(50) {
                // make it possible: take the approval away first
                let a = admin_of(w, m);
                let ix = w.seat_status_ix(m, a, t, 0);
                w.step(&ix);
            }
            if k == 17 {
                if r.pct(60) {
                    let ix = w.ix(tag::CANCEL_ALL_FF, m, t, vec![]);
                    w.step(&ix);
                }
                w.authorized_ix(tag::EVICT, m, s, t, vec![])
            } else {
                let u = up_to(r, &v, &w.m[m]);
                w.authorized_ix(tag::FORCE_CANCEL, m, s, t, u.encode())
            }
        }
        19 => {
            let s = some_signer(w, r, m, pf);
            let cur = v.hdr.status;
            let st = if cur != 1 && r.pct(pf.sticky_active) {
                if cur == 4 {
                    2
                } else {
                    1
                }
            } else if r.pct(10) {
                r.below(8) as u8
            } else {
                *r.pick(&[1u8, 2, 2, 3, 3, 4, 4, 5])
            };
            let rc = match r.below(4) {
                0 => Some(*r.pick(&w.outsiders)),
                1 => Some(w.attacker),
                2 if st == 5 => Some(w.newkey()),
                _ => None,
            };
            w.status_ix(m, s, st, rc)
        }
        20 => {
            let s = some_signer(w, r, m, pf);
            let n = match r.below(9) {
                0 | 1 => w.attacker,
                2 | 3 => w.authority,
                4 | 5 => *r.pick(&w.outsiders),
                // nobody at all
                6 => Pubkey::default(),
                _ => who,
            };
            w.name_ix(m, s, n)
        }
        21 => {
            let s = if v.hdr.successor != Pubkey::default() && r.pct(50) { v.hdr.successor } else { some_signer(w, r, m, pf) };
            w.claim_ix(m, s)
        }
        22 => {
            let s = *r.pick(&[who, w.attacker, w.authority]);
            let rc = if r.pct(85) { v.hdr.fee_recipient } else { *r.pick(&[w.attacker, w.authority, who]) };
            let mut ix = w.collect_ix(m, s, rc);
            if r.pct(8) {
                // other destinations, some of them signing for themselves
                let k = w.m[m].clone();
                let o = *r.pick(&[who, w.attacker, v.hdr.fee_recipient]);
                let d = *r.pick(&[w.tok(&o, &k.quote_mint), w.tok(&o, &k.base_mint), k.quote_vault, k.base_vault, o]);
                ix.accounts[4].pubkey = d;
                if r.pct(40) {
                    ix.accounts[3] = ws(d);
                }
            }
            ix
        }
        23 => {
            let s = some_signer(w, r, m, pf);
            let n = *r.pick(&[w.fee_recipient, w.attacker, w.authority, who]);
            let prev = match r.below(5) {
                0 => None,
                1 => Some(ro(v.hdr.fee_recipient)),
                2 => Some(sg(*r.pick(&[w.attacker, w.authority, who]))),
                _ => Some(sg(v.hdr.fee_recipient)),
            };
            w.fee_recipient_ix(m, s, n, prev)
        }
        24 => {
            let k = *r.pick(&[crate::oracle::log_authority(), who, w.attacker]);
            let mut ix = w.raw(tag::LOG, vec![if k == who { sg(k) } else { ro(k) }], vec![1, 2, 3]);
            if r.pct(30) {
                ix.accounts.clear();
            }
            for _ in 0..*r.pick(&[0u64, 0, 1, 2, 4]) {
                let x = *r.pick(&[who, w.attacker, w.authority, w.m[m].key]);
                ix.accounts.push(if r.pct(50) { sg(x) } else { ro(x) });
            }
            ix
        }
        25 => {
            let mk = w.m[m].clone();
            let k = *r.pick(&[mk.base_vault, mk.quote_vault]);
            let n = r.range(1, 1000);
            if r.pct(70) {
                w.donate(&k, n);
            } else {
                let t = w.traders[r.idx(w.traders.len())];
                let k = *r.pick(&[mk.key, mk.key, k, w.seat(m, t)]);
                w.top_up(&k, n);
            }
            return None;
        }
        _ => {
            // wallets change for reasons of their own
            let mk = w.m[m].clone();
            let mint = if r.pct(50) { mk.base_mint } else { mk.quote_mint };
            let k = w.tok(&who, &mint);
            match r.below(6) {
                0 => w.set_tok_state(&k, 2),
                1 => {
                    if w.s.bank.get(&k).and_then(crate::oracle::tok_amount).is_some() {
                        let n = r.below(mk.p.lots * 3 + 1) * if mint == mk.base_mint { mk.base_lot } else { mk.quote_lot };
                        w.put_token(&k, &who, &mint, n.min(1 << 55));
                    }
                }
                _ => {
                    for k in w.toks.values().copied().collect::<Vec<_>>() {
                        w.set_tok_state(&k, 1);
                    }
                    let per = (mk.p.p0 as u128 * mk.p.tick as u128 / mk.p.b as u128).max(1);
                    let q = (mk.p.lots as u128 * 20 * per).min(1 << 45) as u64;
                    w.wallet(m, who, mk.p.lots * 20, q);
                }
            }
            return None;
        }
    };
    let mut ix = ix;
    if r.pct(pf.hostile) {
        hostile(w, r, &mut ix);
    }
    if r.pct(pf.malform) {
        malform(r, &mut ix);
    }
    Some(ix)
}

pub fn hostile(w: &World, r: &mut Rng, ix: &mut Instruction) {
    let n = ix.accounts.len();
    if n == 0 {
        return;
    }
    for _ in 0..1 + r.below(10) / 8 {
        match r.below(12) {
            0 => {
                // not signed
                for a in ix.accounts.iter_mut() {
                    a.is_signer = false;
                }
            }
            1 => {
                let i = r.idx(n);
                ix.accounts[i].is_writable = false;
            }
            2 => {
                let i = r.idx(n);
                ix.accounts.remove(i);
                return;
            }
            3 => {
                let k = ix.accounts.len();
                ix.accounts.truncate(r.idx(k));
                return;
            }
            4 => {
                let (i, j) = (r.idx(n), r.idx(n));
                let k = ix.accounts[i].pubkey;
                ix.accounts[j].pubkey = k;
            }
            5 => {
                let (i, j) = (r.idx(n), r.idx(n));
                ix.accounts.swap(i, j);
            }
            6 if n > 3 => {
                // somebody else signs with the victim's accounts
                ix.accounts[3].pubkey = *r.pick(&[w.attacker, w.traders[0], w.authority, w.outsiders[0]]);
            }
            7 if w.m.len() > 1 => {
                // the other market or its vaults
                let i = r.idx(n);
                ix.accounts[i].pubkey = *r.pick(&[w.m[1].key, w.m[1].base_vault, w.m[1].quote_vault, w.m[0].key, w.m[0].base_vault, w.m[0].quote_vault]);
            }
            _ => {
                let i = if n > 4 && r.pct(85) { 4 + r.idx(n - 4) } else { r.idx(n) };
                ix.accounts[i].pubkey = *r.pick(&w.pool);
            }
        }
    }
    // nobody can sign for a program address
    for a in ix.accounts.iter_mut() {
        if a.pubkey == crate::oracle::log_authority() {
            a.is_signer = false;
        }
    }
}

pub fn malform(r: &mut Rng, ix: &mut Instruction) {
    let n = ix.data.len();
    match r.below(8) {
        0 => ix.data.truncate(r.idx(n + 1)),
        1 => {
            let k = 1 + r.below(40);
            for _ in 0..k {
                let b = r.next() as u8;
                ix.data.push(if r.pct(50) { 0 } else { b });
            }
        }
        2 if n > 0 => ix.data[0] = r.next() as u8,
        3 if n > 5 => {
            // length prefixes
            let i = 1 + r.idx(n - 4);
            let v = *r.pick(&[u32::MAX, 1 << 30, 1 << 16, 1000, 0]);
            ix.data[i..i + 4].copy_from_slice(&v.to_le_bytes());
        }
        4 => {
            let t = ix.data.first().copied().unwrap_or(0);
            let k = r.below(80) as usize;
            ix.data = (0..k).map(|_| r.next() as u8).collect();
            if !ix.data.is_empty() && r.pct(70) {
                ix.data[0] = t;
            }
        }
        _ => {
            if n > 0 {
                for _ in 0..1 + r.below(3) {
                    let i = r.idx(n);
                    if r.pct(50) {
                        ix.data[i] ^= 1 << r.below(8);
                    } else {
                        ix.data[i] = *r.pick(&[0u8, 1, 2, 3, 0xff, 0x80]);
                    }
                }
            }
        }
    }
}
