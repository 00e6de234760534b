//! Which histories a property's check runs: shared random histories, tilted towards what can break
//! the property, plus special campaigns.
use crate::idl;
use crate::rng::{mix, Rng};
use crate::special;
use crate::workload::{self, Prof};
use crate::world::World;

/// weights tilted towards one property
pub fn profile(prop: usize, r: &mut Rng) -> Prof {
    let mut p = Prof::base();
    let focus = r.pct(75);
    if focus {
        match prop {
            1 => {
                p.donate = 4;
                p.deposit = 8;
                p.withdraw = 6;
                p.collect = 5;
                p.evict = 2;
                p.hostile = 5;
                p.expiry = 30;
            }
            2 => {
                p.reduce = 14;
                p.cancel_all = 4;
                p.cancel_up_to = 10;
                p.cancel_id = 8;
                p.expiry = 35;
                p.own = 30;
                p.prefill = 3;
            }
            3 => {
                p.expiry = 40;
                p.evict = 4;
                p.force = 5;
                p.seat_status = 4;
                p.hostile = 12;
                p.own = 5;
                p.prefill = 4;
                p.two = 50;
                p.traders = 6;
            }
            4 => {
                p.traders = 6;
                p.cross = 55;
                p.swap = 20;
                p.limit = 20;
                p.steps = 160;
                p.expiry = 30;
                p.status = 0;
                p.malform = 0;
            }
            5 => {
                p.swap = 35;
                p.swap_ff = 15;
                p.ioc_special = 65;
                p.cross = 50;
                p.extreme = 3;
                p.status = 0;
            }
            6 => {
                p.swap = 30;
                p.swap_ff = 12;
                p.collect = 8;
                p.fee_recipient = 4;
                p.cross = 50;
                p.hostile = 3;
            }
            7 => {
                p.own = 75;
                p.traders = 3;
                p.outsider = 0;
                p.cross = 60;
                p.expiry = 25;
                p.status = 0;
            }
            8 => {
                p.expiry = 75;
                p.tick = 50;
                p.cross = 45;
                p.multi = 8;
            }
            9 => {
                p.post = 30;
                p.post_ff = 20;
                p.multi = 8;
                p.multi_ff = 8;
                p.cross = 55;
                p.expiry = 45;
                p.tick = 35;
                p.extreme = 2;
            }
            10 => {
                p.prefill = 100;
                p.fullseats = 0;
                p.two = 0;
                p.post = 30;
                p.post_ff = 25;
                p.limit = 30;
                p.limit_ff = 20;
                p.multi = 10;
                p.multi_ff = 8;
                p.cancel_all = 0;
                p.cancel_up_to = 1;
                p.steps = 70;
                p.cross = 12;
                p.status = 0;
                p.swap = 6;
                p.swap_ff = 3;
            }
            11 => {
                p.reduce = 25;
                p.cancel_all = 6;
                p.cancel_up_to = 25;
                p.cancel_id = 25;
                p.force = 5;
                p.seat_status = 3;
                p.post = 30;
                p.multi = 10;
                p.cross = 15;
                p.expiry = 25;
            }
            12 => {
                p.deposit = 15;
                p.withdraw = 12;
                p.wallet = 8;
                p.swap = 20;
                p.limit = 20;
                p.multi = 8;
                p.reduce = 10;
                p.cancel_id = 8;
            }
            13 => {
                p.swap_ff = 25;
                p.limit_ff = 25;
                p.post_ff = 20;
                p.multi_ff = 15;
                p.wrong_form = 8;
                p.silent = 45;
                p.withdraw = 6;
                p.traders = 4;
            }
            14 => {
                p.status = 14;
                p.sticky_active = 55;
                p.not_authority = 15;
                p.cancel_all = 6;
                p.seat_status = 4;
                p.evict = 5;
                p.collect = 6;
            }
            15 => {
                p.req_seat = 8;
                p.seat_status = 12;
                p.req_seat_auth = 8;
                p.evict = 8;
                p.force = 4;
                p.outsider = 30;
                p.fullseats = 8;
                p.unreg_seats = 30;
                p.hostile = 5;
            }
            16 => {
                p.status = 6;
                p.seat_status = 8;
                p.req_seat_auth = 6;
                p.evict = 5;
                p.force = 6;
                p.name = 8;
                p.claim = 10;
                p.fee_recipient = 10;
                p.collect = 5;
                p.not_authority = 45;
                p.hostile = 6;
            }
            17 => {
                p.hostile = 55;
                p.two = 85;
                p.malform = 0;
                p.extreme = 0;
                for x in [&mut p.withdraw, &mut p.deposit, &mut p.collect, &mut p.evict, &mut p.force, &mut p.status, &mut p.req_seat, &mut p.seat_status, &mut p.req_seat_auth] {
                    *x += 3;
                }
            }
            18 => {
                p.multi = 12;
                p.multi_ff = 10;
                p.cancel_all = 6;
                p.log = 3;
                p.expiry = 40;
                p.prefill = 6;
            }
            19 => {
                p.multi = 12;
                p.multi_ff = 10;
                p.cancel_id = 15;
                p.reduce = 12;
                p.post = 20;
                p.limit = 20;
            }
            20 => {
                p.multi = 45;
                p.multi_ff = 35;
                p.wallet = 6;
                p.expiry = 30;
                p.traders = 4;
                p.withdraw = 5;
            }
            21 => {}
            22 => {
                p.hostile = 20;
                p.malform = 30;
                p.extreme = 25;
                p.log = 2;
                p.two = 40;
            }
            23 | 27 => {
                p.hostile = 0;
                p.malform = 0;
                p.extreme = 0;
                p.expiry = 50;
                p.wallet = 4;
                p.steps = 60;
                p.simple = 40;
                p.sticky_active = 80;
            }
            24 => {
                p.hostile = 1;
                p.malform = 0;
                p.two = 5;
                p.steps = 60;
                p.expiry = 30;
            }
            25 => {
                p.steps = 60;
                p.cross = 20;
                p.traders = 6;
                p.status = 2;
                p.seat_status = 3;
                p.withdraw = 1;
                p.cancel_all = 0;
                p.expiry = 35;
                p.donate = 3;
                p.hostile = 1;
            }
            26 => {
                p.swap = 40;
                p.outsider = 55;
                p.cross = 45;
                p.ioc_special = 60;
                p.wallet = 6;
                p.own = 25;
                p.hostile = 1;
                p.seat_status = 3;
            }
            _ => {}
        }
    }
    if focus && r.pct(40) || !focus && r.pct(60) {
        // swarm: drop some of the kinds of instructions, double others
        let ws: Vec<&mut u64> = vec![
            &mut p.swap, &mut p.swap_ff, &mut p.limit, &mut p.limit_ff, &mut p.post, &mut p.post_ff, &mut p.multi, &mut p.multi_ff, &mut p.reduce,
            &mut p.cancel_all, &mut p.cancel_up_to, &mut p.cancel_id, &mut p.withdraw, &mut p.deposit, &mut p.req_seat, &mut p.seat_status,
            &mut p.req_seat_auth, &mut p.evict, &mut p.force, &mut p.status, &mut p.name, &mut p.claim, &mut p.collect, &mut p.fee_recipient,
            &mut p.wallet,
        ];
        for x in ws {
            match r.below(6) {
                0 => *x = 0,
                1 => *x *= 3,
                _ => {}
            }
        }
        // something must still be able to trade
        p.limit = p.limit.max(4);
        p.post = p.post.max(4);
        p.cross = *r.pick(&[10u64, 35, 35, 60, 80]);
        p.own = *r.pick(&[0u64, 15, 15, 50]);
        p.expiry = *r.pick(&[0u64, 20, 20, 60]).max(&p.expiry.min(40));
        p.traders = r.range(2, 7);
        if prop != 10 && (prop < 22 || prop > 24 && prop != 27) && r.pct(4) {
            p.prefill = 100;
        }
    }
    p.many = match prop {
        2 | 3 | 4 | 11 | 15 | 18 | 25 => 3,
        5 | 6 | 7 | 8 | 9 | 10 | 12 | 13 | 20 => 1,
        _ => r.below(2),
    };
    p.stale = match prop {
        4 | 5 | 7 | 8 | 9 | 20 | 26 => 3,
        10 | 22..=24 | 27 => 0,
        _ => 1,
    };
    if prop == 24 || prop == 23 || prop == 27 {
        p.many = if prop != 24 { 1 } else { 0 };
        p.prefill = 0;
        p.fullseats = 0;
        p.extreme = 0;
        if prop != 24 {
            p.prefill = 3;
            p.hostile = 0;
            p.malform = 0;
        }
    }
    p
}

pub struct Plan {
    pub cases: u64,
}

/// number of cases of the given tier (a time limit applies as well)
pub fn plan(prop: usize, thorough: bool) -> Plan {
    let n = match prop {
        10 => 4000,
        17 | 16 => 8000,
        21 => 14000,
        22 => 2000,
        23 | 27 => 3000,
        24 => 700,
        25 => 6000,
        _ => 7000,
    };
    Plan { cases: if thorough { n * 400 } else { n } }
}

pub fn case_seed(prop: usize, seed: u64, case: u64) -> u64 {
    mix(&[0xC0FFEE, prop as u64, seed, case])
}

pub fn label(prop: usize, seed: u64, case: u64) -> String {
    format!("C{:02} seed {} case {}", prop, seed, case)
}

/// runs one history to its end; `stop` is asked after every step
pub fn run_case(prop: usize, seed: u64, case: u64, verbose: bool) -> World {
    let s = case_seed(prop, seed, case);
    let mut r = Rng::new(mix(&[s, 1]));
    let l = label(prop, seed, case);
    if prop == 21 && case % 5 != 4 {
        return special::creation(s, l);
    }
    if prop == 24 && case < 12 {
        // the largest ones first
        return special::capacity(s, l, 11 - case as usize);
    }
    let pf = profile(prop, &mut r);
    if prop == 27 {
        return idl::run(s, l, &pf);
    }
    if prop == 23 {
        return special::client(s, l, &pf);
    }
    if prop == 24 {
        let all: Vec<usize> = if r.pct(30) { (0..12).collect() } else {
            let mut v: Vec<usize> = (0..12).collect();
            r.shuffle(&mut v);
            v.truncate(4);
            v
        };
        return special::lockstep(s, l, &pf, &all);
    }
    let mut w = workload::build(s, l, &pf);
    w.s.verbose = verbose;
    let age = match prop {
        19 => 40,
        18 => 10,
        6 | 20 => 6,
        2 | 3 | 10 | 11 => 3,
        _ => 1,
    };
    if r.pct(age) {
        special::poke_seq(&mut w, &mut r);
    }
    if r.pct(age.min(10)) {
        special::poke_totals(&mut w, &mut r);
    }
    let mut g = Rng::new(mix(&[s, 2]));
    for _ in 0..pf.steps {
        if let Some(ix) = workload::next(&mut w, &mut g, &pf) {
            w.step(&ix);
        }
        if w.s.viol.iter().any(|v| v.props >> prop & 1 == 1) {
            return w;
        }
    }
    let end = match prop {
        14 => 45,
        15 | 16 => 15,
        1 | 3 | 6 | 12 | 18 => 6,
        _ => 2,
    };
    if prop == 25 {
        workload::exit(&mut w, &mut g);
    } else if g.pct(end) {
        workload::winddown(&mut w, &mut g);
    }
    w
}
