//! Builds markets, traders, seats, token accounts and hostile look-alikes, and the plain (well-formed)
//! instructions, written out by hand rather than with the program's own builders.
use crate::monitor::{Sess, StepOut};
use crate::observe::{market_len, MView};
use crate::oracle::{self, log_authority, seat_bytes, seat_pda, tag, token_bytes, vault_pda, TOKEN_RENT};
use crate::rng::Rng;
use crate::svm::Account;
use crate::wire::*;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Params {
    pub sizes: [u64; 3],
    pub base_dec: u8,
    pub quote_dec: u8,
    pub b: u64,
    pub q_per_unit: u64,
    pub tick: u64,
    pub bps: u16,
    pub raw: Option<u32>,
    pub native: u8,
    pub p0: u64,
    /// typical order size
    pub lots: u64,
    pub extra_len: usize,
}

impl Params {
    pub fn simple() -> Params {
        Params {
            sizes: [512, 512, 128],
            base_dec: 9,
            quote_dec: 6,
            b: 1000,
            q_per_unit: 10000,
            tick: 1000,
            bps: 5,
            raw: None,
            native: 0,
            p0: 100,
            lots: 20,
            extra_len: 0,
        }
    }
    /// sizes, prices and amounts beyond 32 bits, with lots of a single atom
    pub fn big(r: &mut Rng) -> Params {
        let large_price = r.pct(40);
        Params {
            base_dec: 0,
            quote_dec: *r.pick(&[0u8, 6]),
            b: 1,
            q_per_unit: 1,
            tick: *r.pick(&[1u64, 1, 2]),
            bps: *r.pick(&[0u16, 1, 5, 5, 30, 2500]),
            raw: if r.pct(20) { Some(1) } else { None },
            native: 0,
            p0: if large_price { (1 << 32) + r.below(1 << 33) } else { r.range(1, 40) },
            lots: if large_price { r.range(1, 200) } else { 1 << r.range(30, 38) },
            ..Params::simple()
        }
        .fix_quote()
    }
    fn fix_quote(mut self) -> Params {
        // one atom per quote lot
        self.q_per_unit = 10u64.pow(self.quote_dec as u32);
        self
    }
    pub fn random(r: &mut Rng) -> Params {
        if r.pct(10) {
            return Params::big(r);
        }
        let base_dec = *r.pick(&[0u8, 2, 6, 9, 9]);
        let quote_dec = *r.pick(&[0u8, 2, 6, 6, 9]);
        let raw = match r.below(8) {
            0 => Some(1),
            1 => Some(1000),
            2 => Some(3),
            _ => None,
        };
        let ba = 10u64.pow(base_dec as u32) * raw.unwrap_or(1) as u64;
        let qa = 10u64.pow(quote_dec as u32);
        let divisor = |r: &mut Rng, n: u64| -> u64 {
            for _ in 0..20 {
                let d = match r.below(6) {
                    0 => 1,
                    1 => n,
                    2 => 10u64.pow(r.below(7) as u32),
                    3 => 2 * 10u64.pow(r.below(5) as u32),
                    4 => 5 * 10u64.pow(r.below(5) as u32),
                    _ => 3,
                };
                if n % d == 0 && d <= 1_000_000 {
                    return d;
                }
            }
            1
        };
        let b = divisor(r, ba);
        let q = divisor(r, qa);
        let bps = match r.below(10) {
            0 => 0,
            1 => 1,
            2 => 30,
            3 => 10000,
            4 => 9999,
            5 => r.below(10001) as u16,
            6 => 100,
            7 => 2500,
            _ => *r.pick(&[2u16, 5, 7]),
        };
        Params {
            sizes: *r.pick(&[[512, 512, 128], [512, 512, 128], [512, 512, 128], [512, 512, 128], [512, 512, 1025], [512, 512, 1153], [1024, 1024, 128]]),
            base_dec,
            quote_dec,
            b,
            q_per_unit: q,
            tick: b * *r.pick(&[1u64, 1, 2, 3, 10, 25]),
            bps,
            raw,
            native: if r.pct(12) { 1 + r.below(2) as u8 } else { 0 },
            p0: match r.below(6) {
                0 => r.range(1, 5),
                1 => r.range(2, 30),
                2 => 1000,
                3 => r.range(10_000, 200_000),
                _ => 100,
            },
            lots: *r.pick(&[1u64, 5, 20, 20, 100, 1000]),
            extra_len: if r.pct(10) { r.range(1, 200) as usize } else { 0 },
        }
    }
}

#[derive(Clone, Debug)]
pub struct Mkt {
    pub key: Pubkey,
    pub p: Params,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub base_lot: u64,
    pub quote_lot: u64,
}

pub struct World {
    pub s: Sess,
    pub r: Rng,
    pub m: Vec<Mkt>,
    /// traders with seats (at least initially)
    pub traders: Vec<Pubkey>,
    /// traders without a seat
    pub outsiders: Vec<Pubkey>,
    pub authority: Pubkey,
    pub fee_recipient: Pubkey,
    pub attacker: Pubkey,
    pub toks: BTreeMap<(Pubkey, Pubkey), Pubkey>,
    /// accounts worth substituting
    pub pool: Vec<Pubkey>,
    pub evil_program: Pubkey,
    pub ids: Vec<(usize, Oid)>,
    /// token accounts are associated token accounts
    pub ata: bool,
}

pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    use std::str::FromStr;
    let prog = Pubkey::from_str("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL").unwrap();
    Pubkey::find_program_address(&[owner.as_ref(), spl_token::id().as_ref(), mint.as_ref()], &prog).0
}

pub fn ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn wr(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn sg(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}
pub fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}

pub fn mint_account(dec: u8) -> Account {
    let mut d = vec![0u8; 82];
    d[44] = dec;
    d[45] = 1;
    Account { lamports: 1_461_600, data: d, owner: spl_token::id(), executable: false }
}

impl World {
    pub fn empty(seed: u64, label: String) -> World {
        let mut r = Rng::new(seed);
        let mut s = Sess::new(label);
        s.bank.slot = r.range(1, 1000);
        s.bank.unix_timestamp = r.range(1, 100_000) as i64;
        for p in [phoenix::id(), spl_token::id(), system_program::id()] {
            s.bank.accounts.insert(p, Account { lamports: 1, data: vec![], owner: Pubkey::default(), executable: true });
        }
        let evil_program = Pubkey::new_from_array(r.bytes32());
        s.bank.accounts.insert(evil_program, Account { lamports: 1, data: vec![], owner: Pubkey::default(), executable: true });
        World {
            s,
            r,
            m: vec![],
            traders: vec![],
            outsiders: vec![],
            authority: Pubkey::default(),
            fee_recipient: Pubkey::default(),
            attacker: Pubkey::default(),
            toks: BTreeMap::new(),
            pool: vec![],
            evil_program,
            ids: vec![],
            ata: false,
        }
    }
    pub fn newkey(&mut self) -> Pubkey {
        Pubkey::new_from_array(self.r.bytes32())
    }
    pub fn person(&mut self, lamports: u64) -> Pubkey {
        let k = self.newkey();
        self.s.bank.accounts.insert(k, Account::system(lamports));
        k
    }
    pub fn mint(&mut self, dec: u8, native: bool) -> Pubkey {
        let k = if native { spl_token::native_mint::id() } else { self.newkey() };
        self.s.bank.accounts.insert(k, mint_account(dec));
        k
    }
    pub fn give(&mut self, owner: &Pubkey, mint: &Pubkey, amount: u64) -> Pubkey {
        let k = if self.ata { ata(owner, mint) } else { self.newkey() };
        self.put_token(&k, owner, mint, amount);
        self.toks.insert((*owner, *mint), k);
        k
    }
    pub fn put_token(&mut self, k: &Pubkey, owner: &Pubkey, mint: &Pubkey, amount: u64) {
        let native = *mint == spl_token::native_mint::id();
        let data = token_bytes(mint, owner, amount, native);
        let lamports = TOKEN_RENT + if native { amount } else { 0 };
        self.s.bank.accounts.insert(*k, Account { lamports, data, owner: spl_token::id(), executable: false });
    }
    /// a third party's top-up of a token account
    pub fn donate(&mut self, k: &Pubkey, amount: u64) {
        if let Some(a) = self.s.bank.accounts.get_mut(k) {
            if let Some(t) = oracle::tok_amount(a) {
                let n = t.2.saturating_add(amount);
                let d = n - t.2;
                a.data[64..72].copy_from_slice(&n.to_le_bytes());
                if t.4 {
                    a.lamports += d;
                }
            }
        }
        self.s.rebase_all();
    }
    /// a third party's payment of lamports to an account that exists
    pub fn top_up(&mut self, k: &Pubkey, n: u64) {
        if let Some(a) = self.s.bank.accounts.get_mut(k) {
            if a.lamports > 0 {
                a.lamports += n;
            }
        }
        self.s.rebase_all();
    }
    pub fn set_tok_state(&mut self, k: &Pubkey, st: u8) {
        if let Some(a) = self.s.bank.accounts.get_mut(k) {
            if a.data.len() == 165 {
                a.data[108] = st;
            }
        }
    }
    pub fn tok(&self, owner: &Pubkey, mint: &Pubkey) -> Pubkey {
        self.toks.get(&(*owner, *mint)).copied().unwrap_or(*owner)
    }

    pub fn alloc_market(&mut self, p: &Params) -> Pubkey {
        let k = self.newkey();
        let len = market_len(&p.sizes) + p.extra_len;
        self.s.bank.accounts.insert(
            k,
            Account { lamports: (len as u64 + 128) * 6960, data: vec![0; len], owner: phoenix::id(), executable: false },
        );
        k
    }

    pub fn init_ix(&self, key: Pubkey, creator: Pubkey, p: &Params, base: Pubkey, quote: Pubkey, collector: Pubkey) -> Instruction {
        let data = InitP {
            sizes: p.sizes,
            q_per_unit: p.q_per_unit,
            tick: p.tick,
            b_per_unit: p.b,
            bps: p.bps,
            collector: collector.to_bytes(),
            raw: p.raw,
        }
        .encode();
        self.raw(
            tag::INIT,
            vec![
                ro(phoenix::id()),
                ro(log_authority()),
                wr(key),
                ws(creator),
                ro(base),
                ro(quote),
                wr(vault_pda(&key, &base).0),
                wr(vault_pda(&key, &quote).0),
                ro(system_program::id()),
                ro(spl_token::id()),
            ],
            data,
        )
    }

    /// creates and activates a market with the real instructions
    pub fn create_market(&mut self, p: Params, creator: Pubkey, collector: Pubkey) -> usize {
        let base = self.mint(if p.native == 1 { 9 } else { p.base_dec }, p.native == 1);
        let quote = self.mint(if p.native == 2 { 9 } else { p.quote_dec }, p.native == 2);
        self.create_market_with(p, creator, collector, base, quote)
    }
    pub fn create_market_with(&mut self, mut p: Params, creator: Pubkey, collector: Pubkey, base: Pubkey, quote: Pubkey) -> usize {
        if p.native == 1 {
            p.base_dec = 9;
            p.raw = None;
            if 1_000_000_000 % p.b != 0 {
                p.b = 1000;
                p.tick = 1000;
            }
        }
        if p.native == 2 {
            p.quote_dec = 9;
            if 1_000_000_000 % p.q_per_unit != 0 {
                p.q_per_unit = 1000;
            }
        }
        let key = self.alloc_market(&p);
        if self.r.pct(15) {
            // somebody pre-funds a vault address
            let v = vault_pda(&key, if self.r.pct(50) { &base } else { &quote }).0;
            let l = self.r.pick(&[1u64, 1000, 2_039_279, 2_039_280, 5_000_000]).clone();
            self.s.bank.accounts.insert(v, Account::system(l));
        }
        let ix = self.init_ix(key, creator, &p, base, quote, collector);
        self.s.step(&ix);
        let ba = 10u64.pow(p.base_dec as u32) * p.raw.unwrap_or(1) as u64;
        let qa = 10u64.pow(p.quote_dec as u32);
        self.m.push(Mkt {
            key,
            base_mint: base,
            quote_mint: quote,
            base_vault: vault_pda(&key, &base).0,
            quote_vault: vault_pda(&key, &quote).0,
            base_lot: ba / p.b,
            quote_lot: qa / p.q_per_unit,
            p,
        });
        self.m.len() - 1
    }

    pub fn raw(&self, t: u8, accounts: Vec<AccountMeta>, data: Vec<u8>) -> Instruction {
        let mut d = vec![t];
        d.extend(data);
        Instruction { program_id: phoenix::id(), accounts, data: d }
    }
    pub fn common(&self, m: usize, signer: Pubkey) -> Vec<AccountMeta> {
        vec![ro(phoenix::id()), ro(log_authority()), wr(self.m[m].key), sg(signer)]
    }
    pub fn vault_metas(&self, m: usize, owner: Pubkey) -> Vec<AccountMeta> {
        let k = &self.m[m];
        vec![
            wr(self.tok(&owner, &k.base_mint)),
            wr(self.tok(&owner, &k.quote_mint)),
            wr(k.base_vault),
            wr(k.quote_vault),
            ro(spl_token::id()),
        ]
    }
    pub fn seat(&self, m: usize, trader: Pubkey) -> Pubkey {
        seat_pda(&self.m[m].key, &trader).0
    }

    /// well-formed instruction of any trader-level kind
    pub fn ix(&self, t: u8, m: usize, signer: Pubkey, data: Vec<u8>) -> Instruction {
        let mut a = self.common(m, signer);
        match t {
            tag::SWAP | 4 | 6 | 8 | 10 | tag::WITHDRAW => a.extend(self.vault_metas(m, signer)),
            tag::SWAP_FF | tag::LIMIT_FF | tag::MULTI_FF => a.push(ro(self.seat(m, signer))),
            tag::LIMIT | tag::MULTI | tag::DEPOSIT => {
                a.push(ro(self.seat(m, signer)));
                a.extend(self.vault_metas(m, signer));
            }
            tag::REQ_SEAT => {
                a[3] = ws(signer);
                a.push(wr(self.seat(m, signer)));
                a.push(ro(system_program::id()));
            }
            _ => {}
        }
        self.raw(t, a, data)
    }
    pub fn order_ix(&self, m: usize, signer: Pubkey, p: &Pkt) -> Instruction {
        let t = match (p.kind == Kind::Ioc, p.only_deposited) {
            (true, false) => tag::SWAP,
            (true, true) => tag::SWAP_FF,
            (false, false) => tag::LIMIT,
            (false, true) => tag::LIMIT_FF,
        };
        self.ix(t, m, signer, p.encode())
    }
    pub fn multi_ix(&self, m: usize, signer: Pubkey, p: &Multi, ff: bool) -> Instruction {
        self.ix(if ff { tag::MULTI_FF } else { tag::MULTI }, m, signer, p.encode())
    }
    pub fn deposit_ix(&self, m: usize, signer: Pubkey, q: u64, b: u64) -> Instruction {
        let mut w = W::default();
        w.u64(q);
        w.u64(b);
        self.ix(tag::DEPOSIT, m, signer, w.0)
    }
    pub fn withdraw_ix(&self, m: usize, signer: Pubkey, q: Option<u64>, b: Option<u64>) -> Instruction {
        let mut w = W::default();
        w.opt64(q);
        w.opt64(b);
        self.ix(tag::WITHDRAW, m, signer, w.0)
    }
    pub fn status_ix(&self, m: usize, signer: Pubkey, st: u8, receiver: Option<Pubkey>) -> Instruction {
        let mut a = self.common(m, signer);
        a[3] = ws(signer);
        if let Some(x) = receiver {
            a.push(wr(x));
        }
        self.raw(tag::STATUS, a, vec![st])
    }
    pub fn seat_status_ix(&self, m: usize, signer: Pubkey, trader: Pubkey, st: u8) -> Instruction {
        let mut a = self.common(m, signer);
        a.push(wr(self.seat(m, trader)));
        self.raw(tag::SEAT_STATUS, a, vec![st])
    }
    pub fn req_seat_auth_ix(&self, m: usize, signer: Pubkey, payer: Pubkey, trader: Pubkey) -> Instruction {
        let mut a = self.common(m, signer);
        a.extend(vec![ws(payer), ro(trader), wr(self.seat(m, trader)), ro(system_program::id())]);
        self.raw(tag::REQ_SEAT_AUTH, a, vec![])
    }
    pub fn authorized_ix(&self, t: u8, m: usize, signer: Pubkey, trader: Pubkey, data: Vec<u8>) -> Instruction {
        let mut a = self.common(m, signer);
        a.push(ro(trader));
        a.push(ro(self.seat(m, trader)));
        a.extend(self.vault_metas(m, trader));
        self.raw(t, a, data)
    }
    pub fn collect_ix(&self, m: usize, signer: Pubkey, recipient: Pubkey) -> Instruction {
        let mut a = self.common(m, signer);
        a.extend(vec![
            wr(self.tok(&recipient, &self.m[m].quote_mint)),
            wr(self.m[m].quote_vault),
            ro(spl_token::id()),
        ]);
        self.raw(tag::COLLECT, a, vec![])
    }
    pub fn fee_recipient_ix(&self, m: usize, signer: Pubkey, new: Pubkey, prev: Option<AccountMeta>) -> Instruction {
        let mut a = self.common(m, signer);
        a.push(ro(new));
        if let Some(p) = prev {
            a.push(p);
        }
        self.raw(tag::FEE_RECIPIENT, a, vec![])
    }
    pub fn name_ix(&self, m: usize, signer: Pubkey, succ: Pubkey) -> Instruction {
        let a = self.common(m, signer);
        self.raw(tag::NAME_SUCC, a, succ.to_bytes().to_vec())
    }
    pub fn claim_ix(&self, m: usize, signer: Pubkey) -> Instruction {
        let a = self.common(m, signer);
        self.raw(tag::CLAIM_AUTH, a, vec![])
    }

    pub fn step(&mut self, ix: &Instruction) -> StepOut {
        let o = self.s.step(ix);
        if o.ok && !o.ids.is_empty() {
            let mk = ix.accounts[2].pubkey;
            if let Some(m) = self.m.iter().position(|x| x.key == mk) {
                for (price, seq) in &o.ids {
                    self.ids.push((m, Oid { side: Side::of_seq(*seq), price: *price, seq: *seq }));
                }
                let n = self.ids.len();
                if n > 400 {
                    self.ids.drain(0..n - 300);
                }
            }
        }
        o
    }
    pub fn view(&mut self, m: usize) -> Option<Rc<MView>> {
        let k = self.m[m].key;
        self.s.view(&k)
    }

    pub fn approve(&mut self, m: usize, t: Pubkey, by_authority: bool) {
        let a = self.authority;
        let ix = if by_authority {
            self.req_seat_auth_ix(m, a, a, t)
        } else {
            self.ix(tag::REQ_SEAT, m, t, vec![])
        };
        self.step(&ix);
        let ix = self.seat_status_ix(m, a, t, 1);
        self.step(&ix);
    }
    /// a seat in the given state that exists without the trader being registered
    pub fn inject_seat(&mut self, m: usize, trader: Pubkey, status: u64) {
        let k = self.seat(m, trader);
        let data = seat_bytes(&self.m[m].key, &trader, status);
        self.s.bank.accounts.insert(k, Account { lamports: oracle::SEAT_RENT, data, owner: phoenix::id(), executable: false });
    }

    pub fn wallet(&mut self, m: usize, p: Pubkey, base_lots: u64, quote_lots: u64) {
        let k = self.m[m].clone();
        let odd_b = self.r.below(k.base_lot.max(1));
        let odd_q = self.r.below(k.quote_lot.max(1));
        for (mint, n) in [
            (k.base_mint, base_lots.saturating_mul(k.base_lot).saturating_add(odd_b)),
            (k.quote_mint, quote_lots.saturating_mul(k.quote_lot).saturating_add(odd_q)),
        ] {
            match self.toks.get(&(p, mint)).copied() {
                Some(t) => {
                    let have = self.s.bank.get(&t).and_then(oracle::tok_amount).map(|x| x.2).unwrap_or(0);
                    let n = have.saturating_add(n).min(have.max(1 << 60));
                    self.put_token(&t, &p, &mint, n);
                }
                None => {
                    self.give(&p, &mint, n.min(1 << 60));
                }
            }
        }
    }

    /// the standard cast: an active market (or two), traders with seats and money, outsiders, look-alikes
    pub fn standard(seed: u64, label: String, p: Params, two: bool, ntraders: usize) -> World {
        Self::standard_opts(seed, label, p, two, ntraders, false, false)
    }
    pub fn standard_opts(seed: u64, label: String, p: Params, two: bool, ntraders: usize, ata: bool, hist: bool) -> World {
        let mut w = World::empty(seed, label);
        w.ata = ata;
        if w.r.pct(8) {
            // far in the future
            w.s.bank.slot += 1 << 33;
            w.s.bank.unix_timestamp += 1 << 34;
        }
        if hist {
            w.s.history = Some(vec![]);
        }
        w.authority = w.person(1 << 40);
        w.fee_recipient = w.person(1 << 30);
        w.attacker = w.person(1 << 40);
        let (a, f, at) = (w.authority, w.fee_recipient, w.attacker);
        w.create_market(p.clone(), a, f);
        if two {
            // a second market over the same mints, run by the attacker
            let (b, q) = (w.m[0].base_mint, w.m[0].quote_mint);
            let mut p2 = p.clone();
            p2.extra_len = 0;
            if w.r.pct(50) {
                w.create_market_with(p2, at, at, b, q);
            } else {
                let mut p3 = Params::random(&mut w.r);
                p3.native = 0;
                w.create_market(p3, at, at);
            }
        }
        for i in 0..ntraders {
            let t = w.person(if i == 0 { 1 << 40 } else { 1 << 33 });
            w.traders.push(t);
        }
        for _ in 0..3 {
            let t = w.person(1 << 33);
            w.outsiders.push(t);
        }
        let all: Vec<Pubkey> = w.traders.iter().chain(w.outsiders.iter()).copied().chain([a, f, at]).collect();
        for m in 0..w.m.len() {
            let mp = w.m[m].p.clone();
            let n = mp.lots * 40;
            let per = (mp.p0 as u128 * mp.tick as u128 / mp.b as u128).max(1);
            let q = (n as u128 * per).min(1 << 50) as u64;
            for (i, k) in all.iter().enumerate() {
                let (nb, nq) = if i % 4 == 3 { (mp.lots, q / 40) } else { (n, q) };
                w.wallet(m, *k, nb, nq);
            }
            let au = if m == 0 { a } else { at };
            let ix = w.status_ix(m, au, 1, None);
            w.step(&ix);
            let save = w.authority;
            w.authority = au;
            for t in w.traders.clone() {
                let by = w.r.pct(50);
                w.approve(m, t, by);
            }
            w.authority = save;
            for t in w.traders.clone() {
                if w.r.pct(60) {
                    let (x, y) = (w.r.below(q / 2 + 1), w.r.below(n / 2 + 1));
                    let ix = w.deposit_ix(m, t, x, y);
                    w.step(&ix);
                }
            }
        }
        w.make_pool();
        w
    }

    pub fn make_pool(&mut self) {
        let mut pool = vec![phoenix::id(), spl_token::id(), system_program::id(), self.evil_program, log_authority()];
        let (a, f, at) = (self.authority, self.fee_recipient, self.attacker);
        pool.extend([a, f, at]);
        let people: Vec<Pubkey> = self.traders.iter().chain(self.outsiders.iter()).copied().chain([at]).collect();
        pool.extend(people.iter().copied());
        pool.extend(self.toks.values().copied());
        for m in 0..self.m.len() {
            let k = self.m[m].clone();
            pool.extend([k.key, k.base_vault, k.quote_vault, k.base_mint, k.quote_mint]);
            for p in &people {
                pool.push(self.seat(m, *p));
            }
            // look-alikes
            let fake = self.newkey();
            let mut acc = self.s.bank.get(&k.key).cloned().unwrap_or_else(|| Account::system(1));
            acc.owner = self.evil_program;
            self.s.bank.accounts.insert(fake, acc);
            pool.push(fake);
            for (mint, vault) in [(k.base_mint, k.base_vault), (k.quote_mint, k.quote_vault)] {
                // genuine token account owned by the vault address
                let x = self.newkey();
                self.put_token(&x, &vault, &mint, 1_000_000_000);
                pool.push(x);
                // forged token account
                let y = self.newkey();
                let data = token_bytes(&mint, &at, 1_000_000_000, false);
                self.s.bank.accounts.insert(y, Account { lamports: TOKEN_RENT, data, owner: self.evil_program, executable: false });
                pool.push(y);
                // a second genuine token account of a trader and of the attacker
                for p in [at, people[0]] {
                    let z = self.newkey();
                    self.put_token(&z, &p, &mint, 1000);
                    pool.push(z);
                }
            }
            // forged seats
            for p in [at, people[0]] {
                let x = self.newkey();
                let data = seat_bytes(&k.key, &p, 1);
                self.s.bank.accounts.insert(x, Account { lamports: oracle::SEAT_RENT, data, owner: self.evil_program, executable: false });
                pool.push(x);
            }
        }
        // an allocated but never initialised market
        let p = Params::simple();
        let k = self.alloc_market(&p);
        pool.push(k);
        self.pool = pool;
    }
}
