//! A small bench for demonstrations: one market, its cast of traders, and the instructions as clients send them.
#![allow(dead_code)]
pub use crate::observe::{market as parse_market, market_len, MView, Order, TState};
pub use crate::svm::{Account, Bank, TxOut};
pub use crate::wire::*;
use borsh::BorshDeserialize;
pub use phoenix::program::events::{AuditLogHeader, PhoenixMarketEvent};
pub use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};
use std::collections::HashMap;

pub mod tag {
    pub const SWAP: u8 = 0;
    pub const SWAP_FF: u8 = 1;
    pub const LIMIT: u8 = 2;
    pub const LIMIT_FF: u8 = 3;
    pub const REDUCE: u8 = 4;
    pub const REDUCE_FF: u8 = 5;
    pub const CANCEL_ALL: u8 = 6;
    pub const CANCEL_ALL_FF: u8 = 7;
    pub const CANCEL_UP_TO: u8 = 8;
    pub const CANCEL_UP_TO_FF: u8 = 9;
    pub const CANCEL_ID: u8 = 10;
    pub const CANCEL_ID_FF: u8 = 11;
    pub const WITHDRAW: u8 = 12;
    pub const DEPOSIT: u8 = 13;
    pub const REQ_SEAT: u8 = 14;
    pub const MULTI: u8 = 16;
    pub const MULTI_FF: u8 = 17;
    pub const INIT: u8 = 100;
    pub const CLAIM_AUTH: u8 = 101;
    pub const NAME_SUCC: u8 = 102;
    pub const STATUS: u8 = 103;
    pub const SEAT_STATUS: u8 = 104;
    pub const REQ_SEAT_AUTH: u8 = 105;
    pub const EVICT: u8 = 106;
    pub const FORCE_CANCEL: u8 = 107;
    pub const COLLECT: u8 = 108;
    pub const FEE_RECIPIENT: u8 = 109;
}

pub const TOKEN_RENT: u64 = 2_039_280;

pub fn ro(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn wr(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn sg(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}
pub fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
pub fn key(n: u64) -> Pubkey {
    let mut b = [0x5au8; 32];
    b[0..8].copy_from_slice(&n.wrapping_mul(0x9E37_79B9_7F4A_7C15).to_be_bytes());
    b[24..32].copy_from_slice(&n.to_be_bytes());
    Pubkey::new_from_array(b)
}
pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    use std::str::FromStr;
    let prog = Pubkey::from_str("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL").unwrap();
    Pubkey::find_program_address(&[owner.as_ref(), spl_token::id().as_ref(), mint.as_ref()], &prog).0
}
pub fn vault(market: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"vault", market.as_ref(), mint.as_ref()], &phoenix::id()).0
}
pub fn seat_of(market: &Pubkey, trader: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"seat", market.as_ref(), trader.as_ref()], &phoenix::id()).0
}
pub fn log_authority() -> Pubkey {
    Pubkey::find_program_address(&[b"log"], &phoenix::id()).0
}
pub fn token_bytes(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut v = vec![0u8; 165];
    v[0..32].copy_from_slice(mint.as_ref());
    v[32..64].copy_from_slice(owner.as_ref());
    v[64..72].copy_from_slice(&amount.to_le_bytes());
    v[108] = 1;
    v
}
pub fn mint_account(dec: u8) -> Account {
    let mut d = vec![0u8; 82];
    d[44] = dec;
    d[45] = 1;
    Account { lamports: 1_461_600, data: d, owner: spl_token::id(), executable: false }
}

#[derive(Clone, Debug)]
pub struct P {
    pub sizes: [u64; 3],
    pub base_dec: u8,
    pub quote_dec: u8,
    pub b: u64,
    pub q_per_unit: u64,
    pub tick: u64,
    pub bps: u16,
    pub raw: Option<u32>,
}
impl Default for P {
    fn default() -> P {
        P { sizes: [512, 512, 128], base_dec: 9, quote_dec: 6, b: 1000, q_per_unit: 10000, tick: 1000, bps: 5, raw: None }
    }
}

pub struct Kit {
    pub bank: Bank,
    pub market: Pubkey,
    pub base: Pubkey,
    pub quote: Pubkey,
    pub authority: Pubkey,
    pub fee_recipient: Pubkey,
    pub base_lot: u64,
    pub quote_lot: u64,
    pub custom: HashMap<(Pubkey, Pubkey), Pubkey>,
    pub n: u64,
}

impl Kit {
    /// a bank without a market
    pub fn bare() -> Kit {
        crate::svm::install();
        let mut bank = Bank { slot: 100, unix_timestamp: 10_000, ..Default::default() };
        for p in [phoenix::id(), spl_token::id(), system_program::id()] {
            bank.accounts.insert(p, Account { lamports: 1, data: vec![], owner: Pubkey::default(), executable: true });
        }
        let mut k = Kit {
            bank,
            market: key(1),
            base: key(2),
            quote: key(3),
            authority: key(4),
            fee_recipient: key(5),
            base_lot: 0,
            quote_lot: 0,
            custom: HashMap::new(),
            n: 100,
        };
        for p in [k.authority, k.fee_recipient] {
            k.bank.accounts.insert(p, Account::system(1 << 40));
        }
        k
    }
    /// an initialised and active market
    pub fn new(p: P) -> Kit {
        let mut k = Kit::bare();
        let r = k.init(&p);
        assert!(r.ok, "initialisation failed: {}", r.err);
        k.ok(&k.status_ix(1));
        k
    }
    pub fn init(&mut self, p: &P) -> TxOut {
        self.bank.accounts.insert(self.base, mint_account(p.base_dec));
        self.bank.accounts.insert(self.quote, mint_account(p.quote_dec));
        let len = market_len(&p.sizes);
        self.bank.accounts.insert(
            self.market,
            Account { lamports: (len as u64 + 128) * 6960, data: vec![0; len], owner: phoenix::id(), executable: false },
        );
        self.base_lot = 10u64.pow(p.base_dec as u32) * p.raw.unwrap_or(1) as u64 / p.b;
        self.quote_lot = 10u64.pow(p.quote_dec as u32) / p.q_per_unit;
        let fr = self.fee_recipient;
        self.give(fr, 0, 0);
        let ix = self.init_ix(p);
        self.bank.execute(&ix)
    }
    pub fn init_ix(&self, p: &P) -> Instruction {
        let data = InitP {
            sizes: p.sizes,
            q_per_unit: p.q_per_unit,
            tick: p.tick,
            b_per_unit: p.b,
            bps: p.bps,
            collector: self.fee_recipient.to_bytes(),
            raw: p.raw,
        }
        .encode();
        self.raw(
            tag::INIT,
            vec![
                ro(phoenix::id()),
                ro(log_authority()),
                wr(self.market),
                ws(self.authority),
                ro(self.base),
                ro(self.quote),
                wr(vault(&self.market, &self.base)),
                wr(vault(&self.market, &self.quote)),
                ro(system_program::id()),
                ro(spl_token::id()),
            ],
            data,
        )
    }
    pub fn person(&mut self) -> Pubkey {
        self.n += 1;
        let k = key(self.n);
        self.bank.accounts.insert(k, Account::system(1 << 40));
        k
    }
    /// sets the content of a person's token accounts, in atoms
    pub fn give_atoms(&mut self, t: Pubkey, base: u64, quote: u64) {
        for (mint, n) in [(self.base, base), (self.quote, quote)] {
            let a = self.tok(t, mint);
            self.bank.accounts.insert(
                a,
                Account { lamports: TOKEN_RENT, data: token_bytes(&mint, &t, n), owner: spl_token::id(), executable: false },
            );
        }
    }
    pub fn give(&mut self, t: Pubkey, base_lots: u64, quote_lots: u64) {
        self.give_atoms(t, base_lots * self.base_lot, quote_lots * self.quote_lot)
    }
    /// a person with an approved seat and tokens
    pub fn trader(&mut self, base_lots: u64, quote_lots: u64) -> Pubkey {
        let t = self.person();
        self.give(t, base_lots, quote_lots);
        self.seat(t);
        t
    }
    pub fn seat(&mut self, t: Pubkey) {
        self.ok(&self.req_seat_auth_ix(t));
        self.ok(&self.seat_status_ix(t, 1));
    }
    pub fn tok(&self, owner: Pubkey, mint: Pubkey) -> Pubkey {
        self.custom.get(&(owner, mint)).copied().unwrap_or_else(|| ata(&owner, &mint))
    }
    pub fn amount(&self, k: &Pubkey) -> u64 {
        self.bank.get(k).map(|a| u64::from_le_bytes(a.data[64..72].try_into().unwrap())).unwrap_or(0)
    }
    /// token holdings of a person in atoms (base, quote)
    pub fn wallet(&self, t: Pubkey) -> (u64, u64) {
        (self.amount(&self.tok(t, self.base)), self.amount(&self.tok(t, self.quote)))
    }
    pub fn vaults(&self) -> (u64, u64) {
        (self.amount(&vault(&self.market, &self.base)), self.amount(&vault(&self.market, &self.quote)))
    }
    pub fn view(&self) -> MView {
        parse_market(&self.bank.get(&self.market).unwrap().data).unwrap()
    }
    pub fn t(&self, t: Pubkey) -> TState {
        self.view().traders.get(&t).copied().unwrap_or_default()
    }
    /// balance of both vaults minus what the market owes, in atoms
    pub fn surplus(&self) -> (i128, i128) {
        let v = self.view();
        let (b, q) = v.owed();
        let (vb, vq) = self.vaults();
        (vb as i128 - (b * self.base_lot as u128) as i128, vq as i128 - (q * self.quote_lot as u128) as i128)
    }
    pub fn run(&mut self, ix: &Instruction) -> TxOut {
        self.bank.slot += 1;
        self.bank.unix_timestamp += 1;
        self.bank.execute(ix)
    }
    pub fn ok(&mut self, ix: &Instruction) -> TxOut {
        let o = self.run(ix);
        assert!(o.ok, "instruction {:?} failed: {}", ix.data.first(), o.err);
        o
    }
    pub fn fails(&mut self, ix: &Instruction) -> TxOut {
        let o = self.run(ix);
        assert!(!o.ok, "instruction {:?} succeeded", ix.data.first());
        o
    }
    pub fn raw(&self, t: u8, accounts: Vec<AccountMeta>, data: Vec<u8>) -> Instruction {
        let mut d = vec![t];
        d.extend(data);
        Instruction { program_id: phoenix::id(), accounts, data: d }
    }
    pub fn common(&self, signer: Pubkey) -> Vec<AccountMeta> {
        vec![ro(phoenix::id()), ro(log_authority()), wr(self.market), sg(signer)]
    }
    pub fn vault_metas(&self, owner: Pubkey) -> Vec<AccountMeta> {
        vec![
            wr(self.tok(owner, self.base)),
            wr(self.tok(owner, self.quote)),
            wr(vault(&self.market, &self.base)),
            wr(vault(&self.market, &self.quote)),
            ro(spl_token::id()),
        ]
    }
    pub fn seat_key(&self, t: Pubkey) -> Pubkey {
        seat_of(&self.market, &t)
    }
    pub fn seat_status(&self, t: Pubkey) -> Option<u64> {
        let a = self.bank.get(&self.seat_key(t))?;
        Some(u64::from_le_bytes(a.data[72..80].try_into().ok()?))
    }
    pub fn ix(&self, t: u8, signer: Pubkey, data: Vec<u8>) -> Instruction {
        let mut a = self.common(signer);
        match t {
            tag::SWAP | 4 | 6 | 8 | 10 | tag::WITHDRAW => a.extend(self.vault_metas(signer)),
            tag::SWAP_FF | tag::LIMIT_FF | tag::MULTI_FF => a.push(ro(self.seat_key(signer))),
            tag::LIMIT | tag::MULTI | tag::DEPOSIT => {
                a.push(ro(self.seat_key(signer)));
                a.extend(self.vault_metas(signer));
            }
            tag::REQ_SEAT => {
                a[3] = ws(signer);
                a.push(wr(self.seat_key(signer)));
                a.push(ro(system_program::id()));
            }
            _ => {}
        }
        self.raw(t, a, data)
    }
    pub fn order_ix(&self, signer: Pubkey, p: &Pkt) -> Instruction {
        let t = match (p.kind == Kind::Ioc, p.only_deposited) {
            (true, false) => tag::SWAP,
            (true, true) => tag::SWAP_FF,
            (false, false) => tag::LIMIT,
            (false, true) => tag::LIMIT_FF,
        };
        self.ix(t, signer, p.encode())
    }
    pub fn multi_ix(&self, signer: Pubkey, p: &Multi, ff: bool) -> Instruction {
        self.ix(if ff { tag::MULTI_FF } else { tag::MULTI }, signer, p.encode())
    }
    pub fn deposit_ix(&self, signer: Pubkey, quote_lots: u64, base_lots: u64) -> Instruction {
        let mut w = W::default();
        w.u64(quote_lots);
        w.u64(base_lots);
        self.ix(tag::DEPOSIT, signer, w.0)
    }
    pub fn withdraw_ix(&self, signer: Pubkey, quote_lots: Option<u64>, base_lots: Option<u64>) -> Instruction {
        let mut w = W::default();
        w.opt64(quote_lots);
        w.opt64(base_lots);
        self.ix(tag::WITHDRAW, signer, w.0)
    }
    pub fn status_ix(&self, st: u8) -> Instruction {
        let mut a = self.common(self.authority);
        a[3] = ws(self.authority);
        self.raw(tag::STATUS, a, vec![st])
    }
    /// Tombstoned needs an account to return the lamports to
    pub fn status_to_ix(&self, st: u8, receiver: Pubkey) -> Instruction {
        let mut i = self.status_ix(st);
        i.accounts.push(wr(receiver));
        i
    }
    pub fn seat_status_ix(&self, trader: Pubkey, st: u8) -> Instruction {
        let mut a = self.common(self.authority);
        a.push(wr(self.seat_key(trader)));
        self.raw(tag::SEAT_STATUS, a, vec![st])
    }
    pub fn req_seat_auth_ix(&self, trader: Pubkey) -> Instruction {
        let mut a = self.common(self.authority);
        a.extend(vec![ws(self.authority), ro(trader), wr(self.seat_key(trader)), ro(system_program::id())]);
        self.raw(tag::REQ_SEAT_AUTH, a, vec![])
    }
    pub fn authorized_ix(&self, t: u8, signer: Pubkey, trader: Pubkey) -> Instruction {
        let mut a = self.common(signer);
        a.push(ro(trader));
        a.push(ro(self.seat_key(trader)));
        a.extend(self.vault_metas(trader));
        self.raw(t, a, vec![])
    }
    pub fn collect_ix(&self, signer: Pubkey, recipient: Pubkey) -> Instruction {
        let mut a = self.common(signer);
        a.extend(vec![wr(self.tok(recipient, self.quote)), wr(vault(&self.market, &self.quote)), ro(spl_token::id())]);
        self.raw(tag::COLLECT, a, vec![])
    }
    pub fn fee_recipient_ix(&self, signer: Pubkey, new: Pubkey, prev: Option<AccountMeta>) -> Instruction {
        let mut a = self.common(signer);
        a.push(ro(new));
        a.extend(prev);
        self.raw(tag::FEE_RECIPIENT, a, vec![])
    }
    pub fn limit(&self, side: Side, price: u64, size: u64) -> Pkt {
        let mut p = Pkt::new(Kind::Limit, side);
        p.price = Some(price);
        p.base = size;
        p
    }
    pub fn post(&self, side: Side, price: u64, size: u64) -> Pkt {
        let mut p = Pkt::new(Kind::PostOnly, side);
        p.price = Some(price);
        p.base = size;
        p
    }
    pub fn ioc(&self, side: Side, price: Option<u64>, base: u64, quote: u64) -> Pkt {
        let mut p = Pkt::new(Kind::Ioc, side);
        p.price = price;
        p.base = base;
        p.quote = quote;
        p
    }
    pub fn order(&mut self, t: Pubkey, p: &Pkt) -> TxOut {
        let ix = self.order_ix(t, p);
        self.run(&ix)
    }
    pub fn put(&mut self, t: Pubkey, p: &Pkt) -> TxOut {
        let ix = self.order_ix(t, p);
        self.ok(&ix)
    }
    pub fn bids(&self) -> Vec<(u64, u64)> {
        self.view().bids.iter().map(|o| (o.price, o.size)).collect()
    }
    pub fn asks(&self) -> Vec<(u64, u64)> {
        self.view().asks.iter().map(|o| (o.price, o.size)).collect()
    }
    pub fn ids(&self, side: Side) -> Vec<Oid> {
        self.view().book(side).iter().map(|o| Oid { side, price: o.price, seq: o.seq }).collect()
    }
}

/// every event an instruction published, headers included, in order
pub fn events(o: &TxOut) -> Vec<PhoenixMarketEvent> {
    let mut v = vec![];
    for l in &o.logs {
        let mut d = &l[1..];
        // the header comes first and carries no event tag of its own variant list
        while !d.is_empty() {
            match PhoenixMarketEvent::deserialize(&mut d) {
                Ok(e) => v.push(e),
                Err(e) => panic!("cannot decode an event: {}", e),
            }
        }
    }
    v
}
