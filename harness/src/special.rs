//! Campaigns beyond the common random histories: market creation, client-side views and builders,
//! size classes, exhausted order sequence numbers.
use crate::model::c;
use crate::monitor::Viol;
use crate::observe::{market_len, Order, SIZES};
use crate::oracle::{tag, vault_pda};
use crate::rng::{mix, Rng};
use crate::svm::{Account, Changed};
use crate::wire::*;
use crate::workload::{self, Prof};
use crate::world::*;
use borsh::{BorshDeserialize, BorshSerialize};
use phoenix::program::instruction_builders as ib;
use phoenix::state::OrderPacket;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program};
use std::collections::BTreeMap;

impl World {
    pub fn fail(&mut self, props: crate::model::P, msg: String) {
        if self.s.viol.len() < 40 {
            let tr: Vec<String> = self.s.trace.iter().cloned().collect();
            self.s.viol.push(Viol {
                props,
                msg: format!("{}\n  step {} of {}\n  preceding steps:\n    {}", msg, self.s.step_no, self.s.label, tr.join("\n    ")),
                step: self.s.step_no,
            });
        }
    }
}

// ------------------------------------------------------------------ market creation

pub fn creation(seed: u64, label: String) -> World {
    let mut w = World::empty(seed, label);
    let mut r = Rng::new(mix(&[seed, 21]));
    w.authority = w.person(1 << 40);
    w.fee_recipient = w.person(1 << 30);
    w.attacker = w.person(1 << 40);
    let a = w.authority;
    let f = w.fee_recipient;
    let mut good: Vec<Instruction> = vec![];
    for _ in 0..r.range(6, 14) {
        let mut p = Params::random(&mut r);
        p.native = 0;
        if r.pct(40) {
            p.sizes = *r.pick(&SIZES[..6]);
        }
        if r.pct(25) {
            p.base_dec = r.below(12) as u8;
            p.quote_dec = r.below(12) as u8;
        }
        for _ in 0..if r.pct(55) { 0 } else { 1 + r.below(2) } {
            // units in lots relate to the token's own unit and to each other
            let (bu, qu) = (10u64.saturating_pow(p.base_dec as u32).saturating_mul(p.raw.unwrap_or(1) as u64), 10u64.saturating_pow(p.quote_dec as u32));
            match r.below(17) {
                0 => p.tick = 0,
                1 => p.raw = Some(0),
                2 => p.b = 0,
                3 => p.q_per_unit = 0,
                4 => p.bps = *r.pick(&[10001u16, 10000, 20000, 65535]),
                5 => p.tick = p.tick.saturating_add(1),
                6 => p.b = p.b.saturating_mul(3),
                7 => p.q_per_unit = p.q_per_unit.saturating_mul(7),
                8 => p.sizes[r.idx(3)] = *r.pick(&[0u64, 1, 128, 512, 513, 1024, 2048, u64::MAX]),
                9 => p.tick = *r.pick(&[u64::MAX, 1 << 63, u64::MAX / 2 + 1]),
                10 => p.raw = Some(*r.pick(&[u32::MAX, 1, 10, 7, 1000])),
                11 => p.base_dec = *r.pick(&[18u8, 19, 20, 30, 255]),
                12 => p.quote_dec = *r.pick(&[18u8, 19, 20, 30, 255]),
                13 => p.tick = *r.pick(&[p.b / 2, p.b / 5, p.b / 10, 1, p.tick / 2, p.tick / 10, p.b.saturating_add(p.b / 2), p.b.saturating_mul(3)]),
                14 => p.b = *r.pick(&[bu, bu.saturating_mul(2), bu.saturating_mul(10), bu / 2, bu / 3, bu / 10, bu.saturating_sub(1), bu.saturating_add(1)]),
                15 => p.q_per_unit = *r.pick(&[qu, qu.saturating_mul(2), qu.saturating_mul(10), qu / 2, qu / 3, qu / 10, qu.saturating_sub(1), qu.saturating_add(1)]),
                _ => p.b = *r.pick(&[u64::MAX, 1 << 40, 2, 5]),
            }
        }
        let base = w.mint(p.base_dec, false);
        let quote = if r.pct(4) { base } else { w.mint(p.quote_dec, false) };
        // the account for the market
        let need = if SIZES.contains(&p.sizes) { market_len(&p.sizes) } else { market_len(&[512, 512, 128]) };
        let len = match r.below(12) {
            0 => need - 1,
            1 => need - r.below(2000) as usize,
            2 => need + r.range(1, 3000) as usize,
            3 => *r.pick(&[0usize, 1, 575, 576, 577, 600, 1000]),
            _ => need,
        };
        let key = w.newkey();
        let owner = if r.pct(92) { phoenix::id() } else { *r.pick(&[system_program::id(), w.evil_program]) };
        let mut data = vec![0; len];
        if r.pct(6) && len > 600 {
            // something is stored in it already
            let i = *r.pick(&[0usize, 8, 100, 576 + 256 + 16, 576 + 256, len - 1]);
            data[i.min(len - 1)] = 1 + r.below(255) as u8;
        }
        w.s.bank.accounts.insert(key, Account { lamports: (len as u64 + 128) * 6960, data, owner, executable: false });
        if r.pct(20) {
            let v = vault_pda(&key, if r.pct(50) { &base } else { &quote }).0;
            let l = *r.pick(&[1u64, 1000, 2_039_279, 2_039_280, 5_000_000, 1 << 35]);
            w.s.bank.accounts.insert(v, Account::system(l));
        }
        let creator = if r.pct(85) { a } else { w.attacker };
        let mut ix = w.init_ix(key, creator, &p, base, quote, f);
        if r.pct(12) {
            let n = ix.accounts.len();
            match r.below(6) {
                0 => ix.accounts.truncate(r.idx(n)),
                1 => {
                    let i = r.idx(n);
                    ix.accounts[i].is_writable = false;
                }
                2 => {
                    let i = r.idx(n);
                    ix.accounts[i].is_signer = false;
                }
                3 => {
                    let (i, j) = (4 + r.idx(n - 4), 4 + r.idx(n - 4));
                    ix.accounts.swap(i, j);
                }
                4 => {
                    let i = r.idx(n);
                    ix.accounts[i].pubkey = *r.pick(&[a, f, key, base, quote, w.evil_program, spl_token::id(), phoenix::id()]);
                }
                _ => workload::malform(&mut r, &mut ix),
            }
        }
        let o = w.step(&ix);
        if o.ok {
            let ba = (10u64.pow(p.base_dec as u32)).saturating_mul(p.raw.unwrap_or(1) as u64);
            let qa = 10u64.pow(p.quote_dec as u32);
            w.m.push(Mkt {
                key,
                base_mint: base,
                quote_mint: quote,
                base_vault: vault_pda(&key, &base).0,
                quote_vault: vault_pda(&key, &quote).0,
                base_lot: ba / p.b.max(1),
                quote_lot: qa / p.q_per_unit.max(1),
                p: p.clone(),
            });
            good.push(ix.clone());
        }
        // a second initialisation, also by somebody else and with other parameters
        if !good.is_empty() && r.pct(40) {
            let g = good[r.idx(good.len())].clone();
            let mut g2 = g.clone();
            match r.below(4) {
                0 => g2.accounts[3].pubkey = w.attacker,
                1 => {
                    // over other mints: its vaults do not exist yet
                    let (x, y) = (w.mint(6, false), w.mint(6, false));
                    let mut p2 = Params::simple();
                    p2.base_dec = 6;
                    p2.sizes = w.m.iter().find(|m| m.key == g.accounts[2].pubkey).map(|m| m.p.sizes).unwrap_or(p2.sizes);
                    let at = w.attacker;
                    g2 = w.init_ix(g.accounts[2].pubkey, at, &p2, x, y, at);
                }
                _ => {}
            }
            w.step(&g2);
        }
        if o.ok && r.pct(60) {
            // the creator is in charge, nobody else
            let m = w.m.len() - 1;
            for s in [w.attacker, a] {
                let ix = w.status_ix(m, s, *r.pick(&[1u8, 2, 3]), None);
                w.step(&ix);
            }
            if r.pct(20) {
                // delete it again
                for st in [2u8, 4, 5] {
                    let ix = w.status_ix(m, creator, st, None);
                    w.step(&ix);
                }
                let ix = good.last().unwrap().clone();
                w.step(&ix);
            }
        }
    }
    w
}

// ------------------------------------------------------------------ views and builders

fn agg(book: &[Order], slot: u64, ts: u64, levels: u64) -> Option<Vec<(u64, u64)>> {
    let mut out: Vec<(u64, u64)> = vec![];
    for o in book.iter().filter(|o| !o.expired(slot, ts)) {
        match out.last_mut() {
            Some(l) if l.0 == o.price => l.1 = l.1.checked_add(o.size)?,
            _ => out.push((o.price, o.size)),
        }
    }
    out.truncate(levels.min(1 << 30) as usize);
    Some(out)
}

pub fn views(w: &mut World, m: usize, r: &mut Rng) {
    views_for(w, m, r, c(23))
}

pub fn views_for(w: &mut World, m: usize, r: &mut Rng, props: u32) {
    use phoenix::program::{load_with_dispatch, MarketHeader};
    use phoenix::quantities::WrapperU64;
    use phoenix::state::markets::RestingOrder;
    use phoenix::state::Side as PSide;
    let v = match w.view(m) {
        Some(v) => v,
        None => return,
    };
    let key = w.m[m].key;
    let data = match w.s.bank.get(&key) {
        Some(a) => a.data.clone(),
        None => return,
    };
    let now = (w.s.bank.slot, w.s.bank.unix_timestamp as u64);
    let mut msgs: Vec<String> = vec![];
    let mut sigs = vec![];
    let r1 = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let hb = std::mem::size_of::<MarketHeader>();
        let h: &MarketHeader = match bytemuck::try_from_bytes(&data[..hb]) {
            Ok(h) => h,
            Err(_) => {
                msgs.push("header cannot be viewed".into());
                return;
            }
        };
        let hv = &v.hdr;
        let got = (
            h.get_base_lot_size().as_u64(),
            h.get_quote_lot_size().as_u64(),
            h.get_tick_size_in_quote_atoms_per_base_unit().as_u64(),
            h.status,
            h.market_sequence_number,
            h.authority,
            h.fee_recipient,
            h.successor,
            h.base_params.mint_key,
            h.quote_params.mint_key,
            (h.base_params.vault_key, h.quote_params.vault_key),
        );
        let exp = (
            hv.base_lot,
            hv.quote_lot,
            hv.tick_atoms,
            hv.status,
            hv.seq,
            hv.authority,
            hv.fee_recipient,
            hv.successor,
            hv.base_mint,
            hv.quote_mint,
            (hv.base_vault, hv.quote_vault),
        );
        if got != exp {
            msgs.push(format!("header view {:?} differs from the stored {:?}", got, exp));
        }
        for _ in 0..2 {
            let p = match r.below(4) {
                0 => r.next(),
                1 => hv.tick_atoms.saturating_mul(r.below(1000)),
                2 => hv.tick_atoms.saturating_mul(1 + r.below(1000)) - 1,
                _ => r.below(1 << 40),
            };
            if hv.tick_atoms > 0 && h.price_in_ticks(p) != p / hv.tick_atoms {
                msgs.push(format!("price {} is shown as {} ticks of {}", p, h.price_in_ticks(p), hv.tick_atoms));
            }
        }
        let mw = match load_with_dispatch(&h.market_size_params, &data[hb..]) {
            Ok(m) => m,
            Err(e) => {
                msgs.push(format!("market cannot be viewed: {:?}", e));
                return;
            }
        };
        let i = mw.inner;
        let got = (
            i.get_taker_fee_bps(),
            i.get_tick_size().as_u64(),
            i.get_base_lots_per_base_unit().as_u64(),
            i.get_sequence_number(),
            i.get_collected_fee_amount().as_u64() as u128,
            i.get_uncollected_fee_amount().as_u64() as u128,
            i.get_data_size(),
        );
        let exp = (v.bps, v.tick, v.b, v.oseq, v.collected, v.unclaimed, market_len(&hv.sizes) - hb);
        if got != exp {
            msgs.push(format!("market parameters {:?}, stored {:?}", got, exp));
        }
        // balances
        let reg = i.get_registered_traders();
        if reg.iter().count() != v.traders.len() {
            msgs.push(format!("{} registered traders shown, {} stored", reg.iter().count(), v.traders.len()));
        }
        for (k, t) in &v.traders {
            match i.get_trader_state(k) {
                None => msgs.push(format!("trader {} not shown", k)),
                Some(s) => {
                    let got = (
                        s.quote_lots_locked.as_u64() as u128,
                        s.quote_lots_free.as_u64() as u128,
                        s.base_lots_locked.as_u64() as u128,
                        s.base_lots_free.as_u64() as u128,
                    );
                    if got != (t.ql, t.qf, t.bl, t.bf) {
                        msgs.push(format!("balances of {} shown as {:?}, stored {:?}", k, got, t));
                    }
                }
            }
            match i.get_trader_index(k) {
                None => msgs.push("no index for a registered trader".into()),
                Some(x) => {
                    if i.get_trader_id_from_index(x) != *k {
                        msgs.push("trader index does not lead back to the trader".into());
                    }
                    let s = i.get_trader_state_from_index(x);
                    if s.quote_lots_free.as_u64() as u128 != t.qf || s.base_lots_locked.as_u64() as u128 != t.bl {
                        msgs.push("trader state by index differs".into());
                    }
                }
            }
        }
        for k in w.outsiders.iter().chain([&w.attacker]) {
            if !v.traders.contains_key(k) && (i.get_trader_state(k).is_some() || i.get_trader_index(k).is_some()) {
                msgs.push("balances shown for someone who is not registered".into());
            }
        }
        // raw books
        for side in [Side::Bid, Side::Ask] {
            let ps = if side == Side::Bid { PSide::Bid } else { PSide::Ask };
            let some = |x: u64| if x == 0 { None } else { Some(x) };
            type Row = (u64, u64, u64, Option<u64>, Option<u64>, bool, u64);
            let got: Vec<Row> = i
                .get_book(ps)
                .iter()
                .map(|(id, o)| {
                    (
                        id.price_in_ticks.as_u64(),
                        id.order_sequence_number,
                        o.size(),
                        RestingOrder::last_valid_slot(o),
                        RestingOrder::last_valid_unix_timestamp_in_seconds(o),
                        RestingOrder::is_expired(o, now.0, now.1),
                        phoenix::state::markets::OrderId::price_in_ticks(id),
                    )
                })
                .collect();
            let exp: Vec<Row> =
                v.book(side).iter().map(|o| (o.price, o.seq, o.size, some(o.lvs), some(o.lvt), o.expired(now.0, now.1), o.price)).collect();
            if got != exp {
                msgs.push(format!("book view {:?} differs from the stored {:?}", got, exp));
            }
            for (id, _) in i.get_book(ps).iter().take(3) {
                if PSide::from_order_sequence_number(id.order_sequence_number) != ps {
                    msgs.push("side of an order identifier".into());
                }
            }
        }
        // ladders
        for _ in 0..6 {
            let levels = *r.pick(&[0u64, 1, 2, 3, 5, 8, 100, u32::MAX as u64]);
            let edge = v.bids.iter().chain(v.asks.iter()).filter(|o| o.lvs != 0 || o.lvt != 0).nth(r.idx(8)).cloned();
            let pick = |r: &mut Rng, now: u64, e: Option<u64>| match r.below(5) {
                0 => None,
                1 => Some(now),
                2 => Some(now + r.below(6)),
                _ => e.map(|x| x.saturating_add(r.below(3)).saturating_sub(1)).or(Some(now)),
            };
            let s = pick(r, now.0, edge.as_ref().map(|o| o.lvs));
            let t = pick(r, now.1, edge.as_ref().map(|o| o.lvt));
            for side in [Side::Bid, Side::Ask] {
                for (sl, ts) in [(s, t), (None, None)] {
                    let exp = match agg(v.book(side), sl.unwrap_or(0), ts.unwrap_or(0), levels) {
                        Some(e) => e,
                        None => continue,
                    };
                    let l = i.get_ladder_with_expiration(levels, sl, ts);
                    let tl = i.get_typed_ladder_with_expiration(levels, sl, ts);
                    let f = |side: Side, l: &phoenix::state::markets::Ladder| -> Vec<(u64, u64)> {
                        let x = if side == Side::Bid { &l.bids } else { &l.asks };
                        x.iter().map(|o| (o.price_in_ticks, o.size_in_base_lots)).collect()
                    };
                    let g = |side: Side, l: &phoenix::state::markets::TypedLadder| -> Vec<(u64, u64)> {
                        let x = if side == Side::Bid { &l.bids } else { &l.asks };
                        x.iter().map(|o| (o.price_in_ticks.as_u64(), o.size_in_base_lots.as_u64())).collect()
                    };
                    let mut all = vec![("ladder with expiry", f(side, &l)), ("typed ladder with expiry", g(side, &tl))];
                    if sl.is_none() && ts.is_none() {
                        all.push(("ladder", f(side, &i.get_ladder(levels))));
                        all.push(("typed ladder", g(side, &i.get_typed_ladder(levels))));
                    }
                    for (n, got) in all {
                        if got != exp {
                            msgs.push(format!("{} ({} levels, slot {:?}, time {:?}) on the {:?} side shows {:?}, book has {:?}", n, levels, sl, ts, side, got, exp));
                        }
                    }
                    sigs.push((mix(&[levels, exp.len() as u64, v.book(side).len() as u64, sl.is_some() as u64, ts.is_some() as u64]), exp.len(), levels));
                }
            }
        }
    }));
    if r1.is_err() {
        // sums of sizes at one price may not fit; anything else is a failure of the view
        if agg(&v.bids, 0, 0, 1 << 20).is_some() && agg(&v.asks, 0, 0, 1 << 20).is_some() {
            msgs.push("a view of the market panicked".into());
        }
    }
    for (s, n, l) in sigs {
        w.s.stats.note(23, s, || format!("ladder of {} levels shows {} prices", l, n));
    }
    *w.s.stats.extra.entry("market views compared".into()).or_default() += 1;
    for x in msgs {
        w.fail(props, x);
    }
}

/// the same instruction made by the published builders
pub fn built(w: &World, m: usize, ix: &Instruction) -> Vec<(&'static str, Vec<Instruction>)> {
    use phoenix::program as p;
    let k = &w.m[m];
    let (mk, b, q) = (&k.key, &k.base_mint, &k.quote_mint);
    if ix.accounts.len() < 4 {
        return vec![];
    }
    let s = ix.accounts[3].pubkey;
    let d = &ix.data[1..];
    let (ba, qa) = (w.tok(&s, b), w.tok(&s, q));
    let one = |n: &'static str, i: Instruction| (n, vec![i]);
    macro_rules! de {
        ($t:ty) => {
            match <$t>::try_from_slice(d) {
                Ok(x) => x,
                Err(_) => return vec![],
            }
        };
    }
    match ix.data[0] {
        t @ (0 | 2) => {
            let x = de!(OrderPacket);
            // the builder chooses the instruction by the kind of packet
            if matches!(x, OrderPacket::ImmediateOrCancel { .. }) != (t == 0) {
                return vec![];
            }
            vec![
                one("new order", ib::create_new_order_instruction(mk, &s, b, q, &x)),
                one("new order, custom accounts", ib::create_new_order_instruction_with_custom_token_accounts(mk, &s, &ba, &qa, b, q, &x)),
            ]
        }
        t @ (1 | 3) => {
            let x = de!(OrderPacket);
            if matches!(x, OrderPacket::ImmediateOrCancel { .. }) != (t == 1) {
                return vec![];
            }
            vec![one("new order, free funds", ib::create_new_order_with_free_funds_instruction(mk, &s, &x))]
        }
        16 => {
            let x = de!(p::new_order::MultipleOrderPacket);
            vec![
                one("multi", ib::create_new_multiple_order_instruction(mk, &s, b, q, &x)),
                one("multi, custom accounts", ib::create_new_multiple_order_instruction_with_custom_token_accounts(mk, &s, &ba, &qa, b, q, &x)),
            ]
        }
        17 => {
            let x = de!(p::new_order::MultipleOrderPacket);
            vec![one("multi, free funds", ib::create_new_multiple_order_with_free_funds_instruction(mk, &s, &x))]
        }
        4 => {
            let x = de!(p::ReduceOrderParams);
            vec![
                one("reduce", ib::reduce_order_instruction(mk, &s, b, q, &x)),
                one("reduce, custom accounts", ib::create_reduce_order_instruction_with_custom_token_accounts(mk, &s, &ba, &qa, b, q, &x)),
            ]
        }
        5 => {
            let x = de!(p::ReduceOrderParams);
            vec![one("reduce, free funds", ib::create_reduce_order_with_free_funds_instruction(mk, &s, &x))]
        }
        6 => vec![
            one("cancel all", ib::create_cancel_all_orders_instruction(mk, &s, b, q)),
            one("cancel all, custom accounts", ib::create_cancel_all_orders_instruction_with_custom_token_accounts(mk, &s, &ba, &qa, b, q)),
        ],
        7 => vec![one("cancel all, free funds", ib::create_cancel_all_order_with_free_funds_instruction(mk, &s))],
        8 => {
            let x = de!(p::CancelUpToParams);
            vec![
                one("cancel up to", ib::create_cancel_up_to_instruction(mk, &s, b, q, &x)),
                one("cancel up to, custom accounts", ib::create_cancel_up_to_instruction_with_custom_token_accounts(mk, &s, &ba, &qa, b, q, &x)),
            ]
        }
        9 => {
            let x = de!(p::CancelUpToParams);
            vec![one("cancel up to, free funds", ib::create_cancel_up_to_with_free_funds_instruction(mk, &s, &x))]
        }
        10 => {
            let x = de!(p::CancelMultipleOrdersByIdParams);
            vec![
                one("cancel by id", ib::create_cancel_multiple_orders_by_id_instruction(mk, &s, b, q, &x)),
                one(
                    "cancel by id, custom accounts",
                    ib::create_cancel_multiple_orders_by_id_instruction_with_custom_token_accounts(mk, &s, &ba, &qa, b, q, &x),
                ),
            ]
        }
        11 => {
            let x = de!(p::CancelMultipleOrdersByIdParams);
            vec![one("cancel by id, free funds", ib::create_cancel_multiple_orders_by_id_with_free_funds_instruction(mk, &s, &x))]
        }
        12 => {
            let mut r = R::new(d);
            match (r.opt(|r| r.u64()), r.opt(|r| r.u64())) {
                (Some(None), Some(None)) => vec![
                    one("withdraw", ib::create_withdraw_funds_instruction(mk, &s, b, q)),
                    one("withdraw, custom accounts", ib::create_withdraw_funds_instruction_with_custom_token_accounts(mk, &s, &ba, &qa, b, q)),
                ],
                (Some(Some(ql)), Some(Some(bl))) => {
                    let x = de!(p::withdraw::WithdrawParams);
                    vec![
                        one("withdraw amounts", ib::create_withdraw_funds_with_custom_amounts_instruction(mk, &s, b, q, bl, ql)),
                        one(
                            "withdraw amounts, custom accounts",
                            ib::create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts(mk, &s, &ba, &qa, b, q, &x),
                        ),
                    ]
                }
                _ => {
                    let x = de!(p::withdraw::WithdrawParams);
                    vec![one(
                        "withdraw amounts, custom accounts",
                        ib::create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts(mk, &s, &ba, &qa, b, q, &x),
                    )]
                }
            }
        }
        13 => {
            let x = de!(p::deposit::DepositParams);
            let seat = w.seat(m, s);
            vec![
                one("deposit", ib::create_deposit_funds_instruction(mk, &s, b, q, &x)),
                one("deposit, custom accounts", ib::create_deposit_funds_instruction_with_custom_token_accounts(mk, &s, &seat, &ba, &qa, b, q, &x)),
            ]
        }
        14 => vec![one("request seat", ib::create_request_seat_instruction(&s, mk))],
        t if t == tag::STATUS && ix.accounts.len() == 4 => {
            let st = match d.first() {
                Some(x) if *x < 6 => *x as u64,
                _ => return vec![],
            };
            vec![one("market status", ib::create_change_market_status_instruction(&s, mk, p::status::MarketStatus::from(st)))]
        }
        t if t == tag::SEAT_STATUS => {
            let who = match w.people().into_iter().find(|x| w.seat(m, *x) == ix.accounts[4].pubkey) {
                Some(x) => x,
                None => return vec![],
            };
            let st = match d.first() {
                Some(x) if *x < 3 => *x as u64,
                _ => return vec![],
            };
            vec![one("seat status", ib::create_change_seat_status_instruction(&s, mk, &who, p::status::SeatApprovalStatus::from(st)))]
        }
        t if t == tag::REQ_SEAT_AUTH => {
            vec![one("request seat authorized", ib::create_request_seat_authorized_instruction(&s, &ix.accounts[4].pubkey, mk, &ix.accounts[5].pubkey))]
        }
        t if t == tag::EVICT => vec![one("evict", ib::create_evict_seat_instruction(&s, mk, &ix.accounts[4].pubkey, b, q))],
        t if t == tag::NAME_SUCC => {
            let x = match d.get(..32) {
                Some(x) if d.len() == 32 => Pubkey::new(x),
                _ => return vec![],
            };
            vec![one("name successor", ib::create_name_successor_instruction(&s, mk, &x))]
        }
        t if t == tag::CLAIM_AUTH => vec![one("claim authority", ib::create_claim_authority_instruction(&s, mk))],
        t if t == tag::COLLECT => {
            let own = w.people().into_iter().find(|x| w.tok(x, q) == ix.accounts[4].pubkey);
            let mut v = vec![one("collect fees", ib::create_collect_fees_instruction(mk, &s, &ix.accounts[4].pubkey, q))];
            if let Some(x) = own {
                v.push(one("collect fees, default", ib::create_collect_fees_instruction_default(mk, &s, &x, q)));
            }
            v
        }
        t if t == tag::FEE_RECIPIENT => {
            let new = ix.accounts[4].pubkey;
            match ix.accounts.get(5) {
                None => vec![one("change fee recipient", ib::create_change_fee_recipient_instruction(&s, mk, &new))],
                Some(prev) if prev.is_signer => {
                    vec![one(
                        "change fee recipient, unclaimed fees",
                        ib::create_change_fee_recipient_with_unclaimed_fees_instruction(&s, mk, &new, &prev.pubkey),
                    )]
                }
                _ => vec![],
            }
        }
        _ => vec![],
    }
}

impl World {
    pub fn people(&self) -> Vec<Pubkey> {
        let mut v: Vec<Pubkey> = self.traders.iter().chain(self.outsiders.iter()).copied().collect();
        v.extend([self.authority, self.fee_recipient, self.attacker]);
        v
    }
}

fn outcome(w: &World, ix: &Instruction) -> (bool, BTreeMap<Pubkey, Account>, Vec<Vec<u8>>, Option<Vec<u8>>) {
    let mut b = w.s.bank.clone();
    let o = b.execute(ix);
    let keys: Vec<Changed> = o.changed;
    let m = keys.iter().map(|ch| (ch.key, b.get(&ch.key).cloned().unwrap_or_default())).collect();
    (o.ok, m, o.logs, o.ret.map(|x| x.1))
}

/// who has to sign the instruction
fn signers(ix: &Instruction) -> std::collections::BTreeSet<Pubkey> {
    ix.accounts.iter().filter(|a| a.is_signer).map(|a| a.pubkey).collect()
}

/// executes the builders' instructions next to the hand-written one
pub fn builders(w: &mut World, m: usize, ix: &Instruction) {
    let alt = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| built(w, m, ix))) {
        Ok(a) => a,
        Err(_) => {
            w.fail(c(23), "an instruction builder panicked".into());
            return;
        }
    };
    if alt.is_empty() {
        return;
    }
    let base = outcome(w, ix);
    let sg = signers(ix);
    for (name, v) in alt {
        for x in v {
            let got = outcome(w, &x);
            if signers(&x) != sg {
                w.fail(c(23), format!("builder '{}' asks for other signers than needed", name));
            }
            if got != base {
                let what = if got.0 != base.0 { format!("succeeds: {} instead of {}", got.0, base.0) } else { "has another effect".into() };
                w.fail(c(23), format!("instruction of builder '{}' {}", name, what));
            }
            let sig = mix(&[crate::rng::hash_str(name), base.0 as u64, base.1.len() as u64]);
            w.s.stats.note(23, sig, || format!("builder '{}' agrees (succeeds: {}, accounts changed: {})", name, base.0, base.1.len()));
            *w.s.stats.extra.entry(format!("builder: {}", name)).or_default() += 1;
        }
    }
}

/// force-cancel builder: one instruction per side cancels everything
pub fn force_cancel_builder(w: &mut World, m: usize, trader: Pubkey) {
    let k = w.m[m].clone();
    let v = match w.view(m) {
        Some(v) => v,
        None => return,
    };
    let au = v.hdr.authority;
    let ixs = ib::create_force_cancel_orders_instructions(&k.key, &trader, &au, &k.base_mint, &k.quote_mint);
    // the hand-written equivalents
    let hand: Vec<Instruction> = [Side::Bid, Side::Ask]
        .iter()
        .map(|s| w.authorized_ix(tag::FORCE_CANCEL, m, au, trader, UpTo { side: *s, tick: None, search: None, cancel: None }.encode()))
        .collect();
    let mut a = w.s.bank.clone();
    let mut b = w.s.bank.clone();
    let ra: Vec<bool> = ixs.iter().map(|i| a.execute(i).ok).collect();
    let rb: Vec<bool> = hand.iter().map(|i| b.execute(i).ok).collect();
    if ra != rb || a.accounts != b.accounts {
        w.fail(c(23), format!("force-cancel builder: {:?} instead of {:?} or another effect", ra, rb));
    }
    if ixs.iter().zip(&hand).any(|(i, h)| signers(i) != signers(h)) {
        w.fail(c(23), "force-cancel builder asks for other signers than needed".into());
    }
    *w.s.stats.extra.entry("builder: force cancel".into()).or_default() += 1;
    for i in ixs {
        w.step(&i);
    }
}

/// market creation through the builder
pub fn init_builder(w: &mut World, r: &mut Rng) {
    let mut p = Params::random(r);
    p.native = 0;
    if r.pct(50) {
        p.sizes = SIZES[r.idx(12)];
    }
    let base = w.mint(p.base_dec, false);
    let quote = w.mint(p.quote_dec, false);
    let key = w.newkey();
    let creator = w.authority;
    let deflt = r.pct(50);
    let collector = if deflt { creator } else { w.fee_recipient };
    let sp = phoenix::program::MarketSizeParams { bids_size: p.sizes[0], asks_size: p.sizes[1], num_seats: p.sizes[2] };
    let v = if deflt {
        ib::create_initialize_market_instructions_default(&key, &base, &quote, &creator, sp, p.q_per_unit, p.b, p.tick, p.bps, p.raw)
    } else {
        ib::create_initialize_market_instructions(&key, &base, &quote, &creator, sp, p.q_per_unit, p.b, p.tick, p.bps, &collector, p.raw)
    };
    let v = match v {
        Ok(v) => v,
        Err(e) => {
            w.fail(c(23), format!("market creation builder failed: {:?}", e));
            return;
        }
    };
    if v.len() != 2 {
        w.fail(c(23), "market creation builder makes an unexpected number of instructions".into());
        return;
    }
    // the first one is for the system program: create_account
    let d = &v[0].data;
    let space = d.get(12..20).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0);
    let lam = d.get(4..12).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0);
    let owner = d.get(20..52).map(Pubkey::new);
    let need = market_len(&p.sizes) as u64;
    if v[0].program_id != system_program::id()
        || d.get(0..4) != Some(&[0u8, 0, 0, 0][..])
        || space != need
        || lam != (need + 128) * 6960
        || owner != Some(phoenix::id())
        || v[0].accounts.first().map(|a| a.pubkey) != Some(creator)
        || v[0].accounts.get(1).map(|a| a.pubkey) != Some(key)
    {
        w.fail(c(23) | c(21), format!("market creation builder allocates {} bytes with {} lamports for {:?}, needed {}", space, lam, owner, need));
    }
    w.s.bank.accounts.insert(key, Account { lamports: lam, data: vec![0; space as usize], owner: phoenix::id(), executable: false });
    let hand = w.init_ix(key, creator, &p, base, quote, collector);
    let a = outcome(w, &hand);
    let b = outcome(w, &v[1]);
    if a != b {
        w.fail(c(23) | c(21), format!("market creation builder: succeeds {} instead of {}, or another market", b.0, a.0));
    }
    if signers(&v[0]) != [creator, key].into_iter().collect() || signers(&v[1]) != signers(&hand) {
        w.fail(c(23), "market creation builder asks for other signers than needed".into());
    }
    w.s.stats.note(23, mix(&[p.sizes[0], p.sizes[2], deflt as u64]), || format!("market creation builder for {:?}", p.sizes));
    w.step(&v[1]);
}

/// the published packet constructors say what they are documented to say
pub fn packets(w: &mut World, r: &mut Rng) {
    use phoenix::state::{decode_order_packet, SelfTradeBehavior, Side as PSide};
    let mut bad = vec![];
    let side = if r.pct(50) { Side::Bid } else { Side::Ask };
    let ps = if side == Side::Bid { PSide::Bid } else { PSide::Ask };
    let (p, n, id) = (r.range(1, 1 << 40), r.range(1, 1 << 40), r.next() as u128);
    let (x, y) = (r.pct(50), r.pct(50));
    let stb = *r.pick(&[Stb::Abort, Stb::CancelProvide, Stb::DecrementTake]);
    let pstb = match stb {
        Stb::Abort => SelfTradeBehavior::Abort,
        Stb::CancelProvide => SelfTradeBehavior::CancelProvide,
        Stb::DecrementTake => SelfTradeBehavior::DecrementTake,
    };
    let ml = if r.pct(50) { Some(r.below(50)) } else { None };
    let e = |k: Kind, f: &dyn Fn(&mut Pkt)| {
        let mut q = Pkt::new(k, side);
        q.price = Some(p);
        q.base = n;
        f(&mut q);
        q
    };
    let mut all: Vec<(&str, OrderPacket, Pkt)> = vec![
        ("new_post_only_default", OrderPacket::new_post_only_default(ps, p, n), e(Kind::PostOnly, &|_| {})),
        (
            "new_post_only_default_with_client_order_id",
            OrderPacket::new_post_only_default_with_client_order_id(ps, p, n, id),
            e(Kind::PostOnly, &|q| q.coid = id),
        ),
        (
            "new_adjustable_post_only_default_with_client_order_id",
            OrderPacket::new_adjustable_post_only_default_with_client_order_id(ps, p, n, id),
            e(Kind::PostOnly, &|q| {
                q.coid = id;
                q.reject = false
            }),
        ),
        (
            "new_post_only",
            OrderPacket::new_post_only(ps, p, n, id, x, y),
            e(Kind::PostOnly, &|q| {
                q.coid = id;
                q.reject = x;
                q.only_deposited = y
            }),
        ),
        ("new_limit_order_default", OrderPacket::new_limit_order_default(ps, p, n), e(Kind::Limit, &|_| {})),
        (
            "new_limit_order_default_with_client_order_id",
            OrderPacket::new_limit_order_default_with_client_order_id(ps, p, n, id),
            e(Kind::Limit, &|q| q.coid = id),
        ),
        (
            "new_limit_order",
            OrderPacket::new_limit_order(ps, p, n, pstb, ml, id, y),
            e(Kind::Limit, &|q| {
                q.stb = stb;
                q.match_limit = ml;
                q.coid = id;
                q.only_deposited = y
            }),
        ),
        (
            "new_ioc_by_lots",
            OrderPacket::new_ioc_by_lots(ps, p, n, pstb, ml, id, y),
            e(Kind::Ioc, &|q| {
                q.stb = stb;
                q.match_limit = ml;
                q.coid = id;
                q.only_deposited = y
            }),
        ),
    ];
    let ioc = |s: Side, f: &dyn Fn(&mut Pkt)| {
        let mut q = Pkt::new(Kind::Ioc, s);
        q.price = Some(p);
        q.stb = stb;
        q.match_limit = ml;
        q.coid = id;
        q.only_deposited = y;
        f(&mut q);
        q
    };
    all.push((
        "new_fok_sell_with_limit_price",
        OrderPacket::new_fok_sell_with_limit_price(p, n, pstb, ml, id, y),
        ioc(Side::Ask, &|q| {
            q.base = n;
            q.min_base = n
        }),
    ));
    all.push((
        "new_fok_buy_with_limit_price",
        OrderPacket::new_fok_buy_with_limit_price(p, n, pstb, ml, id, y),
        ioc(Side::Bid, &|q| {
            q.base = n;
            q.min_base = n
        }),
    ));
    all.push(("new_ioc_sell_with_limit_price", OrderPacket::new_ioc_sell_with_limit_price(p, n, pstb, ml, id, y), ioc(Side::Ask, &|q| q.base = n)));
    all.push(("new_ioc_buy_with_limit_price", OrderPacket::new_ioc_buy_with_limit_price(p, n, pstb, ml, id, y), ioc(Side::Bid, &|q| q.quote = n)));
    let mut s1 = Pkt::new(Kind::Ioc, Side::Bid);
    s1.price = None;
    s1.quote = n;
    s1.min_base = p;
    all.push(("new_ioc_buy_with_slippage", OrderPacket::new_ioc_buy_with_slippage(n, p), s1));
    let mut s2 = Pkt::new(Kind::Ioc, Side::Ask);
    s2.price = None;
    s2.base = n;
    s2.min_quote = p;
    all.push(("new_ioc_sell_with_slippage", OrderPacket::new_ioc_sell_with_slippage(n, p), s2));
    for (name, op, want) in &all {
        let enc = op.try_to_vec().unwrap_or_default();
        if enc != want.encode() {
            bad.push(format!("packet constructor {} encodes {:02x?} instead of {:02x?}", name, enc, want.encode()));
        }
        w.s.stats.note(23, mix(&[crate::rng::hash_str(name), ml.is_some() as u64, y as u64]), || format!("constructor {}", name));
    }
    // what a packet says about itself
    for (name, op, want) in &all {
        use phoenix::state::order_packet::OrderPacketMetadata;
        use phoenix::quantities::WrapperU64;
        let ioc = want.kind == Kind::Ioc;
        let fok = ioc && (want.base > 0 && want.base == want.min_base || want.quote > 0 && want.quote == want.min_quote);
        let got = (op.is_take_only(), op.is_ioc(), op.is_fok(), op.is_post_only(), op.no_deposit_or_withdrawal(), op.client_order_id(), op.fail_silently_on_insufficient_funds());
        let exp = (ioc, ioc, fok, want.kind == Kind::PostOnly, want.only_deposited, want.coid, !ioc && want.silent);
        let got2 = (op.num_base_lots().as_u64(), op.num_quote_lots().as_u64(), op.get_last_valid_slot(), op.get_last_valid_unix_timestamp_in_seconds(), op.side() == phoenix::state::Side::Bid);
        let exp2 = (want.base, if ioc { want.quote } else { 0 }, want.lvs, want.lvt, want.side == Side::Bid);
        if got != exp || got2 != exp2 {
            bad.push(format!("packet from {} describes itself as {:?} {:?} instead of {:?} {:?}", name, got, got2, exp, exp2));
        }
        if let Some(p) = want.price {
            if op.get_price_in_ticks().as_u64() != p {
                bad.push(format!("packet from {} shows the price {}", name, op.get_price_in_ticks().as_u64()));
            }
        }
    }
    // encodings of older clients: the trailing optional fields are missing
    for (_, op, want) in &all {
        let full = op.try_to_vec().unwrap_or_default();
        let fields = if want.kind == Kind::Ioc { 2 } else { 3 };
        for cut in 0..=fields {
            let d = &full[..full.len() - cut];
            match decode_order_packet(d) {
                None => bad.push(format!("{:?} packet without its last {} fields is not decoded", want.kind, cut)),
                Some(x) => {
                    if x.try_to_vec().unwrap_or_default() != full {
                        bad.push(format!("{:?} packet without its last {} fields decodes to {:?}", want.kind, cut, x));
                    }
                }
            }
            *w.s.stats.extra.entry("legacy encodings decoded".into()).or_default() += 1;
        }
    }
    // multi-order packets
    {
        use phoenix::program::new_order::{CondensedOrder, FailedMultipleLimitOrderBehavior as F, MultipleOrderPacket as M};
        let co = CondensedOrder::new_default(p, n);
        let cw = Cond { price: p, size: n, lvs: None, lvt: None };
        let mk = |mode: u8, coid: Option<u128>| Multi { bids: vec![cw.clone()], asks: vec![], coid, mode }.encode();
        let v = vec![
            (M::new(vec![co.clone()], vec![], Some(id), true), mk(1, Some(id))),
            (M::new(vec![co.clone()], vec![], Some(id), false), mk(0, Some(id))),
            (M::new_default(vec![co.clone()], vec![]), mk(1, None)),
            (M::new_with_failure_behavior(vec![co.clone()], vec![], None, F::SkipOnInsufficientFundsAndAmendOnCross), mk(2, None)),
            (M::new_with_failure_behavior(vec![co], vec![], None, F::SkipOnInsufficientFundsAndFailOnCross), mk(3, None)),
        ];
        for (a, b) in v {
            if a.try_to_vec().unwrap_or_default() != b {
                bad.push("multi-order packet constructor encodes something else".into());
            }
        }
    }
    // order ids and resting orders built by clients
    {
        use phoenix::quantities::{BaseLots, Ticks, WrapperU64};
        use phoenix::state::markets::{FIFOOrderId, FIFORestingOrder as O, OrderId, RestingOrder};
        let seq = |r: &mut Rng| {
            let k = r.range(1, 62);
            let s = r.below(1 << k);
            if side == Side::Bid {
                !s
            } else {
                s
            }
        };
        let (s1, s2, p2) = (seq(r), seq(r), if r.pct(50) { p } else { r.range(1, 1 << 40) });
        let a = FIFOOrderId::new_from_untyped(p, s1);
        let b = FIFOOrderId::new(Ticks::new(p2), s2);
        if (a.price_in_ticks(), a.order_sequence_number, OrderId::price_in_ticks(&b), b.order_sequence_number) != (p, s1, p2, s2) {
            bad.push(format!("order ids of {} {} and {} {} are {:?} {:?}", p, s1, p2, s2, a, b));
        }
        if PSide::from_order_sequence_number(s1) != ps || ps.opposite() == ps || ps.opposite().opposite() != ps {
            bad.push(format!("the side of the sequence number {} is shown wrong", s1));
        }
        // better price first, then the earlier one
        let rank = |p: u64, s: u64| if side == Side::Bid { (u64::MAX - p, !s) } else { (p, s) };
        if a.cmp(&b) != rank(p, s1).cmp(&rank(p2, s2)) {
            bad.push(format!("{:?} and {:?} are not in order of priority", a, b));
        }
        let (i, slot, ts) = (r.below(1000), r.range(1, 1000), r.range(1, 1000));
        let made = [
            (O::new_default(i, BaseLots::new(n)), None, None),
            (O::new(i, BaseLots::new(n), Some(slot), Some(ts)), Some(slot), Some(ts)),
            (O::new(i, BaseLots::new(n), None, Some(ts)), None, Some(ts)),
            (O::new(i, BaseLots::new(n), Some(slot), None), Some(slot), None),
            (O::new_with_last_valid_slot(i, BaseLots::new(n), slot), Some(slot), None),
            (O::new_with_last_valid_unix_timestamp(i, BaseLots::new(n), ts), None, Some(ts)),
        ];
        let (now, at) = (r.below(1002), r.below(1002));
        for (o, slot, ts) in made {
            let dead = slot.map(|s| s < now).unwrap_or(false) || ts.map(|t| t < at).unwrap_or(false);
            if (o.trader_index, o.size(), o.last_valid_slot(), o.last_valid_unix_timestamp_in_seconds()) != (i, n, slot, ts) || o.is_expired(now, at) != dead {
                bad.push(format!("an order of {} lots valid to {:?} {:?} reads as {:?} (expired at {} {}: {})", n, slot, ts, o, now, at, o.is_expired(now, at)));
            }
        }
    }
    for b in bad {
        w.fail(c(23), b);
    }
}

pub fn client(seed: u64, label: String, pf: &Prof) -> World {
    let mut w = workload::build_with(seed, label, pf, true);
    let mut r = Rng::new(mix(&[seed, 23]));
    for _ in 0..4 {
        packets(&mut w, &mut r);
    }
    if r.pct(60) {
        init_builder(&mut w, &mut r);
    }
    for _ in 0..pf.steps {
        if let Some(ix) = workload::next(&mut w, &mut r, pf) {
            let m = w.m.iter().position(|k| ix.accounts.get(2).map(|a| a.pubkey == k.key).unwrap_or(false));
            if let Some(m) = m {
                if !ix.data.is_empty() && ix.program_id == phoenix::id() {
                    builders(&mut w, m, &ix);
                }
            }
            w.step(&ix);
            if r.pct(8) {
                let t = w.traders[r.idx(w.traders.len())];
                if r.pct(70) {
                    let au = w.authority;
                    let ix = w.seat_status_ix(0, au, t, 0);
                    w.step(&ix);
                }
                force_cancel_builder(&mut w, 0, t);
            }
        }
        if r.pct(40) {
            let m = if w.m.len() > 1 && r.pct(20) { 1 } else { 0 };
            views(&mut w, m, &mut r);
        }
    }
    w
}

// ------------------------------------------------------------------ size classes

pub fn lockstep(seed: u64, label: String, pf: &Prof, sizes: &[usize]) -> World {
    let mut first: Option<World> = None;
    for &i in sizes {
        let mut q = pf.clone();
        q.sizes = Some(SIZES[i]);
        let mut w = workload::build_hist(seed, format!("{} size {:?}", label, SIZES[i]), &q);
        let mut r = Rng::new(mix(&[seed, 24]));
        for _ in 0..q.steps {
            if let Some(ix) = workload::next(&mut w, &mut r, &q) {
                w.step(&ix);
            }
        }
        views_for(&mut w, 0, &mut Rng::new(mix(&[seed, 25])), c(23) | c(24));
        match &mut first {
            None => first = Some(w),
            Some(f) => {
                let a = f.s.history.clone().unwrap_or_default();
                let b = w.s.history.clone().unwrap_or_default();
                let n = a.len().min(b.len());
                if let Some(k) = (0..n).find(|k| a[*k] != b[*k]) {
                    f.fail(c(24), format!("step {} has another result with size {:?} than with size {:?}", k + 1, SIZES[i], SIZES[sizes[0]]));
                } else if a.len() != b.len() {
                    f.fail(c(24), format!("history with size {:?} goes another way than with size {:?}", SIZES[i], SIZES[sizes[0]]));
                }
                for (k, h) in a.iter().enumerate() {
                    if k % 5 == 0 {
                        f.s.stats.note(24, mix(&[*h, i as u64]), || format!("step {} has the same result with sizes {:?} and {:?}", k + 1, SIZES[i], SIZES[sizes[0]]));
                    }
                }
                *f.s.stats.extra.entry("steps compared between sizes".into()).or_default() += n as u64;
                f.s.viol.append(&mut w.s.viol);
                let st = std::mem::replace(&mut w.s.stats, crate::monitor::Stats::new());
                f.s.stats.merge(st);
            }
        }
    }
    first.unwrap()
}

/// each size class really holds what it says
pub fn capacity(seed: u64, label: String, i: usize) -> World {
    let mut p = Params::simple();
    p.sizes = SIZES[i];
    p.p0 = 20_000;
    p.bps = 10;
    let mut w = World::standard(seed, format!("{} capacity {:?}", label, SIZES[i]), p, false, 3);
    let mut r = Rng::new(mix(&[seed, 240 + i as u64]));
    let au = w.authority;
    // books
    for side in [Side::Bid, Side::Ask] {
        let cap = SIZES[i][if side == Side::Bid { 0 } else { 1 }];
        let mut have = w.view(0).map(|v| v.book(side).len() as u64).unwrap_or(0);
        let mut guard = 0;
        while have + 2 < cap && guard < 400 {
            guard += 1;
            let t = w.traders[r.idx(w.traders.len())];
            w.wallet(0, t, 10_000, 1 << 40);
            let k = (cap - 2 - have).min(60);
            let v: Vec<Cond> = (0..k)
                .map(|j| Cond {
                    price: match side {
                        Side::Bid => 19_000 - have - j,
                        Side::Ask => 21_000 + have + j,
                    },
                    size: 1 + r.below(4),
                    lvs: None,
                    lvt: None,
                })
                .collect();
            let (bids, asks) = if side == Side::Bid { (v, vec![]) } else { (vec![], v) };
            let ix = w.multi_ix(0, t, &Multi { bids, asks, coid: None, mode: 0 }, false);
            let o = w.s.bank.execute(&ix);
            if !o.ok {
                w.fail(c(24) | c(10), format!("posting order {} of {} on the {:?} side failed: {}", have, cap, side, o.err));
                break;
            }
            have += k;
        }
        w.s.rebase_all();
        let n = w.view(0).map(|v| v.book(side).len() as u64).unwrap_or(0);
        if n != have {
            w.fail(c(24) | c(10) | c(2), format!("{} orders posted on the {:?} side, {} there", have, side, n));
        }
        // up to the last place, and past it
        let edge = match side {
            Side::Bid => 19_000 - cap,
            Side::Ask => 21_000 + cap,
        };
        for k in 0..5u64 {
            let t = w.traders[r.idx(w.traders.len())];
            w.wallet(0, t, 100, 1 << 40);
            let mut q = Pkt::new(if k % 2 == 0 { Kind::PostOnly } else { Kind::Limit }, side);
            // first two fill it, then a worse one (refused), then better ones (evicting)
            let x = if k < 3 { edge } else { 20_000 };
            q.price = Some(if side == Side::Bid { x - k } else { x + k });
            q.base = 3;
            let ix = w.order_ix(0, t, &q);
            let o = w.step(&ix);
            if (k < 2) != o.ok && k < 3 {
                w.fail(c(24) | c(10), format!("order {} of a side for {}: success {}", have + k + 1, cap, o.ok));
            }
        }
        let n = w.view(0).map(|v| v.book(side).len() as u64).unwrap_or(0);
        if n != cap {
            w.fail(c(24) | c(10), format!("{:?} side holds {} orders, created for {}", side, n, cap));
        }
        w.s.stats.note(24, mix(&[i as u64, cap, n, side as u64]), || format!("{:?} side of {:?} filled with {} orders", side, SIZES[i], n));
    }
    // traders
    let cap = SIZES[i][2] as usize;
    let mut have = w.view(0).map(|v| v.traders.len()).unwrap_or(0);
    while have + 2 < cap {
        let t = w.newkey();
        w.inject_seat(0, t, 0);
        let ix = w.seat_status_ix(0, au, t, 1);
        let o = w.s.bank.execute(&ix);
        if !o.ok {
            w.fail(c(24) | c(15), format!("registering trader {} of {} failed: {}", have, cap, o.err));
            break;
        }
        have += 1;
    }
    w.s.rebase_all();
    for k in 0..3 {
        let t = w.person(1 << 30);
        w.inject_seat(0, t, 0);
        let ix = w.seat_status_ix(0, au, t, 1);
        let o = w.step(&ix);
        if o.ok != (k < 2) {
            w.fail(c(24) | c(15), format!("approving trader {} of {}: success {}", cap - 2 + k + 1, cap, o.ok));
        }
        if k < 2 {
            // the newest traders can trade
            w.wallet(0, t, 1000, 1 << 30);
            let ix = w.deposit_ix(0, t, 1000, 100);
            w.step(&ix);
        }
        if k < 2 {
            // both as makers and as takers, in both directions
            let other = w.traders[r.idx(w.traders.len())];
            for side in [Side::Bid, Side::Ask] {
                for (maker, taker) in [(t, other), (other, t)] {
                    w.wallet(0, maker, 1000, 1 << 30);
                    w.wallet(0, taker, 1000, 1 << 30);
                    let best = w.view(0).map(|v| (v.bids.first().map(|o| o.price).unwrap_or(19_000), v.asks.first().map(|o| o.price).unwrap_or(21_000))).unwrap_or((19_000, 21_000));
                    let mut q = Pkt::new(Kind::PostOnly, side);
                    q.price = Some(if side == Side::Bid { best.1 - 1 } else { best.0 + 1 });
                    q.base = 4;
                    q.reject = true;
                    let ix = w.order_ix(0, maker, &q);
                    w.step(&ix);
                    let mut q = Pkt::new(Kind::Ioc, side.opp());
                    q.price = None;
                    q.base = 2 + r.below(2);
                    let ix = w.order_ix(0, taker, &q);
                    w.step(&ix);
                }
            }
        }
    }
    let n = w.view(0).map(|v| v.traders.len()).unwrap_or(0);
    if n != cap {
        w.fail(c(24) | c(15), format!("{} traders registered, created for {}", n, cap));
    }
    w.s.stats.note(24, mix(&[i as u64, cap as u64, n as u64, 77]), || format!("{} traders registered on {:?}", n, SIZES[i]));
    // a full market is shown in full
    views_for(&mut w, 0, &mut Rng::new(mix(&[seed, 241])), c(23) | c(24));
    // and normal life goes on in the full market
    let mut pf = Prof::base();
    pf.steps = 10;
    pf.extreme = 0;
    for _ in 0..pf.steps {
        if let Some(ix) = workload::next(&mut w, &mut r, &pf) {
            w.step(&ix);
        }
    }
    // whatever goes wrong here is the size class not keeping its promise
    for v in w.s.viol.iter_mut() {
        v.props |= c(24);
    }
    w
}

// ------------------------------------------------------------------ order sequence numbers

/// a market that has seen an enormous number of orders
pub fn poke_seq(w: &mut World, r: &mut Rng) {
    const OFF: usize = 576 + 256 + 16;
    let v = match w.view(0) {
        Some(v) => v,
        None => return,
    };
    let k = w.m[0].key;
    let x = match r.below(4) {
        0 => (u64::MAX >> 1) - r.below(40),
        1 => (1 << 32) - r.below(40),
        2 => (1 << 62) - r.below(40),
        _ => (u64::MAX >> 1) - r.below(400),
    };
    if let Some(a) = w.s.bank.accounts.get_mut(&k) {
        if a.data.get(OFF..OFF + 8) == Some(&v.oseq.to_le_bytes()[..]) {
            a.data[OFF..OFF + 8].copy_from_slice(&x.to_le_bytes());
        }
    }
    w.s.rebase_all();
}

/// a market with a long history: many instructions, many fees collected, many still to be collected
pub fn poke_totals(w: &mut World, r: &mut Rng) {
    const OFF: usize = 576 + 256 + 16;
    let v = match w.view(0) {
        Some(v) => v,
        None => return,
    };
    let k = w.m[0].key;
    let lot = w.m[0].quote_lot;
    let vault = v.hdr.quote_vault;
    let seqs = *r.pick(&[(1u64 << 32) - 5, (1 << 16) - 5, 1 << 40, u64::MAX >> 1]);
    let total = *r.pick(&[(1u64 << 32) - 5, (1 << 16) - 1, 1 << 40, 3]);
    let pending = *r.pick(&[0u64, (1 << 32) - 3, 1 << 33, 7]);
    let pending = if (pending as u128 * lot as u128) < 1 << 60 { pending } else { 0 };
    let a = match w.s.bank.accounts.get_mut(&k) {
        Some(a) => a,
        None => return,
    };
    let at = |d: &[u8], o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
    if at(&a.data, OFF + 16) as u128 != v.collected || at(&a.data, OFF + 24) as u128 != v.unclaimed {
        return;
    }
    a.data[OFF + 16..OFF + 24].copy_from_slice(&(v.collected as u64 + total).to_le_bytes());
    a.data[OFF + 24..OFF + 32].copy_from_slice(&(v.unclaimed as u64 + pending).to_le_bytes());
    if at(&a.data, 272) == v.hdr.seq {
        a.data[272..280].copy_from_slice(&seqs.to_le_bytes());
    }
    w.donate(&vault, pending * lot);
    w.s.rebase_all();
}
