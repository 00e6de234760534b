//! Says, for one instruction and the accounts it was given, what must happen: fail without effect (and
//! why), or succeed with exactly these account contents, events and return data. Stateless: everything
//! is derived from the bytes of the accounts before the instruction.
use crate::model::{c, feat, r, Ev, Reason, Stop, M, P};
use crate::observe::{header, market_len, Hdr, MView, TState, HDR, SIZES};
use crate::svm::{Account, Bank};
use crate::wire::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const MARKET_DISC: u64 = 8167313896524341111;
pub const SEAT_DISC: u64 = 2002603505298356104;
pub const SEAT_RENT: u64 = 1_781_760;
pub const TOKEN_RENT: u64 = 2_039_280;
pub const MIN_RENT: u64 = 890_880;

pub fn log_authority() -> Pubkey {
    use std::str::FromStr;
    thread_local! { static K: Pubkey = Pubkey::from_str("7aDTsspkQNGKmrexAN7FLx9oxU3iPczSSvHNggyuqYkR").unwrap(); }
    K.with(|k| *k)
}

pub mod tag {
    pub const SWAP: u8 = 0;
    pub const SWAP_FF: u8 = 1;
    pub const LIMIT: u8 = 2;
    pub const LIMIT_FF: u8 = 3;
    pub const REDUCE: u8 = 4;
    pub const REDUCE_FF: u8 = 5;
    pub const CANCEL_ALL: u8 = 6;
    pub const CANCEL_ALL_FF: u8 = 7;
    pub const CANCEL_UP_TO: u8 = 8;
    pub const CANCEL_UP_TO_FF: u8 = 9;
    pub const CANCEL_ID: u8 = 10;
    pub const CANCEL_ID_FF: u8 = 11;
    pub const WITHDRAW: u8 = 12;
    pub const DEPOSIT: u8 = 13;
    pub const REQ_SEAT: u8 = 14;
    pub const LOG: u8 = 15;
    pub const MULTI: u8 = 16;
    pub const MULTI_FF: u8 = 17;
    pub const INIT: u8 = 100;
    pub const CLAIM_AUTH: u8 = 101;
    pub const NAME_SUCC: u8 = 102;
    pub const STATUS: u8 = 103;
    pub const SEAT_STATUS: u8 = 104;
    pub const REQ_SEAT_AUTH: u8 = 105;
    pub const EVICT: u8 = 106;
    pub const FORCE_CANCEL: u8 = 107;
    pub const COLLECT: u8 = 108;
    pub const FEE_RECIPIENT: u8 = 109;
}
pub fn op_name(t: u8) -> &'static str {
    match t {
        0 => "Swap",
        1 => "SwapFF",
        2 => "PlaceLimit",
        3 => "PlaceLimitFF",
        4 => "Reduce",
        5 => "ReduceFF",
        6 => "CancelAll",
        7 => "CancelAllFF",
        8 => "CancelUpTo",
        9 => "CancelUpToFF",
        10 => "CancelById",
        11 => "CancelByIdFF",
        12 => "Withdraw",
        13 => "Deposit",
        14 => "RequestSeat",
        15 => "Log",
        16 => "Multi",
        17 => "MultiFF",
        100 => "InitializeMarket",
        101 => "ClaimAuthority",
        102 => "NameSuccessor",
        103 => "ChangeMarketStatus",
        104 => "ChangeSeatStatus",
        105 => "RequestSeatAuthorized",
        106 => "EvictSeat",
        107 => "ForceCancel",
        108 => "CollectFees",
        109 => "ChangeFeeRecipient",
        _ => "Unknown",
    }
}
pub fn is_order(t: u8) -> bool {
    t <= 3
}
pub fn is_multi(t: u8) -> bool {
    t == 16 || t == 17
}
pub fn is_cancel(t: u8) -> bool {
    (4..=11).contains(&t)
}
pub fn is_ff(t: u8) -> bool {
    matches!(t, 1 | 3 | 5 | 7 | 9 | 11 | 17)
}
pub fn is_admin(t: u8) -> bool {
    (101..=109).contains(&t)
}

pub struct Eff {
    /// None: the market account is gone
    pub market: Option<MView>,
    pub accounts: BTreeMap<Pubkey, Account>,
    pub ev: Vec<Ev>,
    pub ids: Vec<(u64, u64)>,
}

pub enum Expect {
    Fail(Vec<Reason>),
    Ok(Box<Eff>),
    /// may fail (an intermediate value does not fit 64 bits), but if it succeeds, then like this
    May(Box<Eff>),
    Unknown(&'static str),
}

pub struct Resolved {
    pub tag: u8,
    pub market: Pubkey,
    pub signer: Pubkey,
    /// the trader whose orders and funds the instruction is about
    pub trader: Pubkey,
    pub pre: Option<Rc<MView>>,
    pub pkt: Option<Pkt>,
    pub multi: Option<Multi>,
    pub registered: bool,
    pub feats: u64,
    pub expect: Expect,
}

pub fn tok_amount(a: &Account) -> Option<(Pubkey, Pubkey, u64, u8, bool)> {
    if a.owner != spl_token::id() || a.data.len() != 165 {
        return None;
    }
    let d = &a.data;
    Some((
        Pubkey::new(&d[0..32]),
        Pubkey::new(&d[32..64]),
        u64::from_le_bytes(d[64..72].try_into().unwrap()),
        d[108],
        d[109] == 1,
    ))
}

pub fn seat_pda(market: &Pubkey, trader: &Pubkey) -> (Pubkey, u8) {
    cached_pda(b"seat", market, trader)
}
pub fn vault_pda(market: &Pubkey, mint: &Pubkey) -> (Pubkey, u8) {
    cached_pda(b"vault", market, mint)
}
fn cached_pda(s: &'static [u8], a: &Pubkey, b: &Pubkey) -> (Pubkey, u8) {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! { static C: RefCell<HashMap<(&'static [u8], Pubkey, Pubkey), (Pubkey, u8)>> = RefCell::new(HashMap::new()); }
    C.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 50_000 {
            m.clear();
        }
        *m.entry((s, *a, *b)).or_insert_with(|| Pubkey::find_program_address(&[s, a.as_ref(), b.as_ref()], &phoenix::id()))
    })
}

pub struct SeatView {
    pub market: Pubkey,
    pub trader: Pubkey,
    pub status: u64,
}
pub fn seat_view(a: &Account) -> Option<SeatView> {
    if a.owner != phoenix::id() || a.data.len() < 128 {
        return None;
    }
    let d = &a.data;
    if u64::from_le_bytes(d[0..8].try_into().unwrap()) != SEAT_DISC {
        return None;
    }
    Some(SeatView {
        market: Pubkey::new(&d[8..40]),
        trader: Pubkey::new(&d[40..72]),
        status: u64::from_le_bytes(d[72..80].try_into().unwrap()),
    })
}
pub fn seat_bytes(market: &Pubkey, trader: &Pubkey, status: u64) -> Vec<u8> {
    let mut v = vec![0u8; 128];
    v[0..8].copy_from_slice(&SEAT_DISC.to_le_bytes());
    v[8..40].copy_from_slice(market.as_ref());
    v[40..72].copy_from_slice(trader.as_ref());
    v[72..80].copy_from_slice(&status.to_le_bytes());
    v
}
pub fn token_bytes(mint: &Pubkey, owner: &Pubkey, amount: u64, native: bool) -> Vec<u8> {
    let mut v = vec![0u8; 165];
    v[0..32].copy_from_slice(mint.as_ref());
    v[32..64].copy_from_slice(owner.as_ref());
    v[64..72].copy_from_slice(&amount.to_le_bytes());
    v[108] = 1;
    if native {
        v[109] = 1;
        v[113..121].copy_from_slice(&TOKEN_RENT.to_le_bytes());
    }
    v
}

struct Pv {
    key: Pubkey,
    signer: bool,
    writable: bool,
}

struct Cx<'a> {
    bank: &'a Bank,
    metas: Vec<Pubkey>,
    privs: Vec<Pv>,
    why: Vec<Reason>,
    ov: BTreeMap<Pubkey, Account>,
}

struct Vaults {
    base_acc: Pubkey,
    quote_acc: Pubkey,
    base_vault: Pubkey,
    quote_vault: Pubkey,
}

impl<'a> Cx<'a> {
    fn bad(&mut self, why: &'static str, props: P) {
        self.why.push(r(why, props));
    }
    fn key(&mut self, i: usize) -> Option<Pubkey> {
        match self.metas.get(i) {
            Some(k) => Some(*k),
            None => {
                self.bad("account list too short", c(22) | c(17));
                None
            }
        }
    }
    fn p(&self, k: &Pubkey) -> (bool, bool) {
        self.privs.iter().find(|p| p.key == *k).map(|p| (p.signer, p.writable)).unwrap_or((false, false))
    }
    fn acc(&self, k: &Pubkey) -> Account {
        self.ov
            .get(k)
            .cloned()
            .or_else(|| self.bank.get(k).cloned())
            .unwrap_or_else(|| Account::system(0))
    }
    fn program(&mut self, i: usize, id: &Pubkey) {
        if let Some(k) = self.key(i) {
            if k != *id {
                self.bad("wrong program account", c(17));
            }
        }
    }
    fn token(&mut self, i: usize, mint: &Pubkey, owner: &Pubkey, props: P) -> Pubkey {
        let k = match self.key(i) {
            Some(k) => k,
            None => return Pubkey::default(),
        };
        match tok_amount(&self.acc(&k)) {
            None => self.bad("not a token account", c(17) | props),
            Some((m, o, ..)) => {
                if m != *mint {
                    self.bad("token account of another mint", c(17) | c(1) | props);
                }
                if o != *owner {
                    self.bad("token account of another owner", c(17) | c(3) | props);
                }
            }
        }
        k
    }
    fn vault(&mut self, i: usize, mint: &Pubkey, key: &Pubkey) -> Pubkey {
        let k = match self.key(i) {
            Some(k) => k,
            None => return Pubkey::default(),
        };
        if k != *key {
            self.bad("not the market's vault", c(17) | c(1));
        } else {
            self.token(i, mint, key, c(1));
        }
        k
    }
    /// the five settlement accounts
    fn vaults(&mut self, i: usize, h: &Hdr, trader: &Pubkey) -> Vaults {
        let v = Vaults {
            base_acc: self.token(i, &h.base_mint, trader, c(12)),
            quote_acc: self.token(i + 1, &h.quote_mint, trader, c(12)),
            base_vault: self.vault(i + 2, &h.base_mint, &h.base_vault),
            quote_vault: self.vault(i + 3, &h.quote_mint, &h.quote_vault),
        };
        self.program(i + 4, &spl_token::id());
        v
    }
    fn seat(&mut self, i: usize, market: &Pubkey, trader: &Pubkey, approved: bool) {
        let k = match self.key(i) {
            Some(k) => k,
            None => return,
        };
        if k != seat_pda(market, trader).0 {
            return self.bad("not this trader's seat on this market", c(15) | c(17));
        }
        match seat_view(&self.acc(&k)) {
            None => self.bad("seat does not exist", c(15) | c(17)),
            Some(s) => {
                if s.market != *market || s.trader != *trader {
                    self.bad("seat content of someone else", c(15) | c(17));
                }
                if approved != (s.status == 1) {
                    self.bad(
                        if approved { "seat not approved" } else { "seat still approved" },
                        if approved { c(15) } else { c(15) | c(3) },
                    );
                }
            }
        }
    }
    fn transfer(&mut self, src: &Pubkey, dst: &Pubkey, auth: &Pubkey, lots: u128, lot: u64) -> Result<(), Reason> {
        let amount = match lots.checked_mul(lot as u128) {
            Some(x) if x <= u64::MAX as u128 => x as u64,
            _ => return Err(r("token amount does not fit", c(22) | c(12) | c(1))),
        };
        if amount == 0 {
            return Ok(());
        }
        let f = |s: &'static str| Err(r(s, c(12) | c(1)));
        if !self.p(src).1 || !self.p(dst).1 {
            return Err(r("token account not writable", c(22) | c(12)));
        }
        let (mut a, mut b) = (self.acc(src), self.acc(dst));
        let (am, ao, aa, ast, an) = match tok_amount(&a) {
            Some(x) => x,
            None => return f("transfer from a non-token account"),
        };
        let (bm, _, ba, bst, bn) = match tok_amount(&b) {
            Some(x) => x,
            None => return f("transfer to a non-token account"),
        };
        if ast != 1 || bst != 1 {
            return f("token account frozen or uninitialised");
        }
        if aa < amount {
            return f("not enough tokens");
        }
        if am != bm {
            return f("mint mismatch");
        }
        if ao != *auth {
            return f("not the owner of the tokens");
        }
        if src == dst {
            return Ok(());
        }
        let nb = match ba.checked_add(amount) {
            Some(x) => x,
            None => return f("token balance overflow"),
        };
        a.data[64..72].copy_from_slice(&(aa - amount).to_le_bytes());
        b.data[64..72].copy_from_slice(&nb.to_le_bytes());
        if an && bn {
            a.lamports = a.lamports.saturating_sub(amount);
            b.lamports += amount;
        }
        self.ov.insert(*src, a);
        self.ov.insert(*dst, b);
        Ok(())
    }
    /// creation of a program-derived account paid for by `payer`
    fn create(&mut self, payer: &Pubkey, key: &Pubkey, rent: u64, data: Vec<u8>, owner: Pubkey) -> Result<u64, Reason> {
        let f = |s: &'static str| Err(r(s, c(15) | c(21) | c(22)));
        let mut p = self.acc(payer);
        let mut t = self.acc(key);
        if !self.p(key).1 {
            return f("account to create is not writable");
        }
        let due = if t.lamports == 0 { rent } else { rent.saturating_sub(t.lamports) };
        if due > 0 {
            let (s, w) = self.p(payer);
            if !s || !w {
                return f("payer is not a writable signer");
            }
            if p.owner != system_program::id() || !p.data.is_empty() || p.lamports < due {
                return f("payer cannot pay");
            }
            p.lamports -= due;
            self.ov.insert(*payer, p);
        }
        t.lamports += due;
        t.data = data;
        t.owner = owner;
        let l = t.lamports;
        self.ov.insert(*key, t);
        Ok(l)
    }
    /// every touched account must end rent exempt (or closed)
    fn rent_ok(&self) -> bool {
        self.ov.iter().all(|(k, a)| {
            let pre = self.bank.get(k).map(|x| x.lamports).unwrap_or(0);
            let need = (a.data.len() as u64 + 128) * 6960;
            a.lamports == 0 || a.lamports >= need || (pre == a.lamports)
        })
    }
}

fn status_name(s: u64, t: u64) -> bool {
    matches!(
        (s, t),
        (1, 1) | (1, 2) | (1, 3) | (2, 1) | (2, 2) | (2, 3) | (2, 4) | (3, 1) | (3, 2) | (3, 3) | (3, 4) | (4, 2) | (4, 3) | (4, 4) | (4, 5)
    )
}

pub fn dec_deposit(d: &[u8]) -> Option<(u64, u64)> {
    let mut r = R::new(d);
    let x = (r.u64()?, r.u64()?);
    r.end()?;
    Some(x)
}
pub fn dec_withdraw(d: &[u8]) -> Option<(Option<u64>, Option<u64>)> {
    let mut r = R::new(d);
    let x = (r.opt(|r| r.u64())?, r.opt(|r| r.u64())?);
    r.end()?;
    Some(x)
}

const BADDATA: P = c(22);

pub fn resolve(ix: &Instruction, bank: &Bank, view: &mut dyn FnMut(&Pubkey) -> Option<Rc<MView>>) -> Resolved {
    let mut res = Resolved {
        tag: 255,
        market: Pubkey::default(),
        signer: Pubkey::default(),
        trader: Pubkey::default(),
        pre: None,
        pkt: None,
        multi: None,
        registered: false,
        feats: 0,
        expect: Expect::Unknown(""),
    };
    let mut privs: Vec<Pv> = vec![];
    for m in &ix.accounts {
        if let Some(p) = privs.iter_mut().find(|p| p.key == m.pubkey) {
            p.signer |= m.is_signer;
            p.writable |= m.is_writable;
        } else {
            privs.push(Pv { key: m.pubkey, signer: m.is_signer, writable: m.is_writable });
        }
    }
    let mut cx = Cx { bank, metas: ix.accounts.iter().map(|m| m.pubkey).collect(), privs, why: vec![], ov: BTreeMap::new() };
    let one = |why: &'static str, p: P| Expect::Fail(vec![r(why, p)]);
    if ix.data.is_empty() {
        res.expect = one("no instruction data", BADDATA);
        return res;
    }
    let t = ix.data[0];
    let d = &ix.data[1..];
    res.tag = t;
    if !((0..=17).contains(&t) || (100..=109).contains(&t)) {
        res.expect = one("unknown instruction", BADDATA);
        return res;
    }
    if t == tag::LOG {
        res.expect = one("log instruction from outside", c(18) | c(16));
        return res;
    }
    if cx.metas.len() < 4 {
        res.expect = one("account list too short", c(22) | c(17));
        return res;
    }
    cx.program(0, &phoenix::id());
    if cx.metas[1] != log_authority() {
        cx.bad("wrong log authority", c(17) | c(18));
    }
    let mk = cx.metas[2];
    let signer = cx.metas[3];
    res.market = mk;
    res.signer = signer;
    res.trader = signer;
    if !cx.p(&signer).0 {
        let props = if is_admin(t) { c(16) | c(17) } else { c(16) | c(17) | c(3) };
        cx.bad("the signer did not sign", props);
    }
    if !cx.p(&mk).1 {
        cx.bad("market not writable", c(22) | c(17));
    }
    if t == tag::INIT {
        init(ix, cx, &mut res, d);
        return res;
    }
    let macc = cx.acc(&mk);
    let h = match header(&macc.data) {
        Some(h) if macc.owner == phoenix::id() && h.disc == MARKET_DISC => h,
        _ => {
            cx.bad("not an initialised market", c(17) | c(14));
            res.expect = Expect::Fail(cx.why);
            return res;
        }
    };
    let pre = match view(&mk) {
        Some(v) => v,
        None => {
            res.expect = Expect::Unknown("market body unreadable before the instruction");
            return res;
        }
    };
    res.pre = Some(pre.clone());
    // an account that plays two roles at once is left to the invariants
    let roles = [phoenix::id(), log_authority(), mk];
    if cx.metas[3..].iter().any(|k| roles.contains(k)) && !(cx.metas[4..].contains(&phoenix::id()) && !roles.contains(&signer) && !cx.metas[4..].contains(&mk)) {
        res.expect = Expect::Unknown("aliased accounts");
    }
    let aliased = matches!(res.expect, Expect::Unknown("aliased accounts"));
    let st = h.status;
    let post_ok = st == 1 || st == 2;
    let reduce_ok = (1..=4).contains(&st);
    let is_auth = signer == h.authority;
    let ts = bank.unix_timestamp as u64;
    let mut m = M::new((*pre).clone(), bank.slot, ts);
    if is_ff(t) {
        m.feats |= feat::FF;
    }
    if is_admin(t) && is_auth {
        m.feats |= feat::AUTH;
    }
    res.registered = pre.traders.contains_key(&signer);
    let mut gone = false;

    macro_rules! dec {
        ($e:expr) => {
            match $e {
                Some(x) => Some(x),
                None => {
                    cx.bad("malformed instruction data", BADDATA);
                    None
                }
            }
        };
    }
    macro_rules! finish_fail {
        () => {
            if !cx.why.is_empty() {
                res.feats = m.feats;
                res.expect = if aliased { Expect::Unknown("aliased accounts") } else { Expect::Fail(cx.why) };
                return res;
            }
        };
    }
    macro_rules! stop {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(Stop::Fail(x)) => {
                    res.feats = m.feats;
                    res.expect = if aliased { Expect::Unknown("aliased accounts") } else { Expect::Fail(vec![x]) };
                    return res;
                }
                Err(Stop::Unknown(x)) => {
                    res.feats = m.feats;
                    res.expect = Expect::Unknown(x);
                    return res;
                }
            }
        };
    }
    macro_rules! tx {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(x) => {
                    res.feats = m.feats;
                    res.expect = if aliased { Expect::Unknown("aliased accounts") } else { Expect::Fail(vec![x]) };
                    return res;
                }
            }
        };
    }

    if is_admin(t) && t != tag::CLAIM_AUTH && t != tag::COLLECT && !is_auth {
        let extra = match t {
            tag::STATUS => c(14),
            tag::SEAT_STATUS | tag::REQ_SEAT_AUTH => c(15),
            tag::EVICT | tag::FORCE_CANCEL => c(15) | c(3),
            tag::FEE_RECIPIENT => c(6),
            _ => 0,
        };
        cx.bad("not the authority", c(16) | extra);
    }
    if matches!(t, 2 | 3 | 13 | 14 | 16 | 17) && !post_ok {
        cx.bad("status does not allow new orders or deposits", c(14));
    }
    if matches!(t, 0 | 1) && st != 1 {
        cx.bad("status does not allow trading", c(14));
    }
    if matches!(t, 4 | 6 | 8 | 10 | 12) && !reduce_ok {
        cx.bad("status does not allow withdrawals", c(14));
    }

    match t {
        0..=3 => {
            let ff = t == 1 || t == 3;
            let swap = t < 2;
            let mut at = 4;
            if !(t == 0) {
                cx.seat(4, &mk, &signer, true);
                at = 5;
            }
            let va = if ff { None } else { Some(cx.vaults(at, &h, &signer)) };
            let p = dec!(packet(d));
            if let Some(p) = p {
                if swap != (p.kind == Kind::Ioc) {
                    cx.bad("packet kind not allowed in this instruction", c(13) | c(5));
                }
                if ff != p.only_deposited {
                    cx.bad("packet meant for the other form", c(13));
                }
            }
            res.pkt = p;
            finish_fail!();
            let p = p.unwrap();
            let mut skipped = false;
            if p.kind != Kind::Ioc && p.silent {
                let tr = match m.v.traders.get(&signer) {
                    Some(t) => *t,
                    None => {
                        res.feats = m.feats;
                        res.expect = one("not registered", c(13) | c(15));
                        return res;
                    }
                };
                let (mut q, mut b) = (tr.qf, tr.bf);
                if let Some(v) = &va {
                    let wq = tok_amount(&cx.acc(&v.quote_acc)).unwrap().2;
                    let wb = tok_amount(&cx.acc(&v.base_acc)).unwrap().2;
                    // an account that is not initialised has no readable amount
                    if tok_amount(&cx.acc(&v.quote_acc)).unwrap().3 == 0 || tok_amount(&cx.acc(&v.base_acc)).unwrap().3 == 0 {
                        res.expect = Expect::Unknown("uninitialised token account");
                        return res;
                    }
                    q += wq as u128 / h.quote_lot.max(1) as u128;
                    b += wb as u128 / h.base_lot.max(1) as u128;
                    m.cap(q);
                    m.cap(b);
                }
                let need = m.need(p.side, p.price.unwrap_or(0), p.base);
                let have = if p.side == Side::Bid { q } else { b };
                if have < need {
                    skipped = true;
                    m.feats |= feat::SILENT;
                }
            }
            if !skipped {
                let (id, resp) = stop!(m.place(&signer, &p));
                if let Some(id) = id {
                    m.ids.push(id);
                }
                if resp.matched && st != 1 {
                    res.feats = m.feats;
                    res.expect = one("trade while the market is not active", c(14));
                    return res;
                }
                if ff {
                    if resp.q_dep() > 0 || resp.b_dep() > 0 {
                        res.feats = m.feats;
                        res.expect = one("free funds order by someone without funds", c(13) | c(15));
                        return res;
                    }
                } else {
                    let v = va.unwrap();
                    if resp.q_dep() > 0 || resp.b_dep() > 0 {
                        m.feats |= feat::PAID_IN;
                    }
                    if resp.q_out > 0 || resp.b_out > 0 {
                        m.feats |= feat::PAID_OUT;
                    }
                    match p.side {
                        Side::Bid => {
                            tx!(cx.transfer(&v.base_vault, &v.base_acc, &v.base_vault, resp.b_out, h.base_lot));
                            tx!(cx.transfer(&v.quote_acc, &v.quote_vault, &signer, resp.q_dep(), h.quote_lot));
                        }
                        Side::Ask => {
                            tx!(cx.transfer(&v.quote_vault, &v.quote_acc, &v.quote_vault, resp.q_out, h.quote_lot));
                            tx!(cx.transfer(&v.base_acc, &v.base_vault, &signer, resp.b_dep(), h.base_lot));
                        }
                    }
                }
            }
        }
        16 | 17 => {
            let ff = t == 17;
            cx.seat(4, &mk, &signer, true);
            let va = if ff { None } else { Some(cx.vaults(5, &h, &signer)) };
            let p = dec!(Multi::decode(d));
            res.multi = p.clone();
            finish_fail!();
            let p = p.unwrap();
            let (mut wq, mut wb) = (None, None);
            if let Some(v) = &va {
                let (a, b) = (tok_amount(&cx.acc(&v.quote_acc)).unwrap(), tok_amount(&cx.acc(&v.base_acc)).unwrap());
                if a.3 == 0 || b.3 == 0 {
                    res.expect = Expect::Unknown("uninitialised token account");
                    return res;
                }
                wq = Some(a.2 as u128 / h.quote_lot.max(1) as u128);
                wb = Some(b.2 as u128 / h.base_lot.max(1) as u128);
            }
            let (qd, bd) = stop!(m.multi(&signer, &p, wq, wb, ff));
            if let Some(v) = va {
                if qd > 0 || bd > 0 {
                    m.feats |= feat::PAID_IN;
                }
                tx!(cx.transfer(&v.quote_acc, &v.quote_vault, &signer, qd, h.quote_lot));
                tx!(cx.transfer(&v.base_acc, &v.base_vault, &signer, bd, h.base_lot));
            } else if qd > 0 || bd > 0 {
                res.feats = m.feats;
                res.expect = one("free funds do not cover the orders", c(13) | c(20));
                return res;
            }
        }
        4..=11 | tag::FORCE_CANCEL => {
            let ff = is_ff(t);
            let force = t == tag::FORCE_CANCEL;
            let mut trader = signer;
            let mut at = 4;
            if force {
                trader = cx.key(4).unwrap_or_default();
                cx.seat(5, &mk, &trader, false);
                at = 6;
            }
            res.trader = trader;
            let va = if ff { None } else { Some(cx.vaults(at, &h, &trader)) };
            let (q, b) = match t {
                4 | 5 => {
                    let x = dec!(dec_reduce(d));
                    finish_fail!();
                    let (id, size) = x.unwrap();
                    stop!(m.reduce(&trader, id, Some(size)))
                }
                6 | 7 => {
                    finish_fail!();
                    m.cancel_all(&trader)
                }
                10 | 11 => {
                    let x = dec!(dec_ids(d));
                    finish_fail!();
                    m.cancel_ids(&trader, &x.unwrap())
                }
                _ => {
                    let x = dec!(UpTo::decode(d));
                    finish_fail!();
                    m.cancel_up_to(&trader, &x.unwrap())
                }
            };
            if !m.v.traders.contains_key(&trader) {
                m.feats |= feat::UNREG;
            }
            if let Some(v) = va {
                m.claim(&trader, q, b);
                tx!(cx.transfer(&v.quote_vault, &v.quote_acc, &v.quote_vault, q, h.quote_lot));
                tx!(cx.transfer(&v.base_vault, &v.base_acc, &v.base_vault, b, h.base_lot));
            }
        }
        tag::WITHDRAW => {
            let v = cx.vaults(4, &h, &signer);
            let x = dec!(dec_withdraw(d));
            finish_fail!();
            let (q, b) = x.unwrap();
            let t = match m.v.traders.get(&signer) {
                Some(t) => *t,
                None => {
                    res.expect = one("withdrawal by someone who is not registered", c(12) | c(15));
                    return res;
                }
            };
            let q = q.map(|x| x as u128).unwrap_or(t.qf).min(t.qf);
            let b = b.map(|x| x as u128).unwrap_or(t.bf).min(t.bf);
            m.claim(&signer, q, b);
            tx!(cx.transfer(&v.quote_vault, &v.quote_acc, &v.quote_vault, q, h.quote_lot));
            tx!(cx.transfer(&v.base_vault, &v.base_acc, &v.base_vault, b, h.base_lot));
        }
        tag::DEPOSIT => {
            cx.seat(4, &mk, &signer, true);
            let v = cx.vaults(5, &h, &signer);
            let x = dec!(dec_deposit(d));
            finish_fail!();
            let (q, b) = x.unwrap();
            stop!(m.register(&signer, 0));
            let t = m.v.traders.get_mut(&signer).unwrap();
            t.qf += q as u128;
            t.bf += b as u128;
            let (x, y) = (t.qf, t.bf);
            m.cap(x);
            m.cap(y);
            if q > 0 || b > 0 {
                m.feats |= feat::PAID_IN;
            }
            tx!(cx.transfer(&v.quote_acc, &v.quote_vault, &signer, q as u128, h.quote_lot));
            tx!(cx.transfer(&v.base_acc, &v.base_vault, &signer, b as u128, h.base_lot));
        }
        tag::REQ_SEAT | tag::REQ_SEAT_AUTH => {
            let (payer, trader, at) = if t == tag::REQ_SEAT {
                (signer, signer, 4)
            } else {
                let p = cx.key(4).unwrap_or_default();
                let (s, w) = cx.p(&p);
                if !s || !w {
                    cx.bad("payer must sign and be writable", c(17) | c(15));
                }
                (p, cx.key(5).unwrap_or_default(), 6)
            };
            res.trader = trader;
            let seat = cx.key(at).unwrap_or_default();
            let a = cx.acc(&seat);
            if !a.data.is_empty() || a.owner != system_program::id() {
                cx.bad("seat already exists", c(15) | c(17));
            }
            cx.program(at + 1, &system_program::id());
            if seat != seat_pda(&mk, &trader).0 {
                cx.bad("not the address of this trader's seat", c(15) | c(17));
            }
            finish_fail!();
            tx!(cx.create(&payer, &seat, SEAT_RENT, seat_bytes(&mk, &trader, 0), phoenix::id()));
        }
        tag::CLAIM_AUTH => {
            if signer != h.successor {
                cx.bad("not the successor", c(16));
            } else {
                m.feats |= feat::AUTH;
            }
            finish_fail!();
            m.v.hdr.authority = signer;
        }
        tag::NAME_SUCC => {
            if d.len() != 32 {
                cx.bad("malformed instruction data", BADDATA);
            }
            finish_fail!();
            m.v.hdr.successor = Pubkey::new(d);
        }
        tag::STATUS => {
            let receiver = cx.metas.get(4).copied().unwrap_or(signer);
            if d.len() != 1 || d[0] > 5 {
                cx.bad("malformed instruction data", BADDATA | c(14));
            } else if !status_name(st, d[0] as u64) {
                cx.bad("status transition not permitted", c(14));
            } else if d[0] == 5 {
                if !pre.bids.is_empty() || !pre.asks.is_empty() {
                    cx.bad("market with orders deleted", c(14) | c(2) | c(3));
                }
                if pre.unclaimed > 0 {
                    cx.bad("market with uncollected fees deleted", c(14) | c(6) | c(1));
                }
                if !pre.traders.is_empty() {
                    cx.bad("market with traders deleted", c(14) | c(1) | c(3));
                }
                if receiver == mk {
                    cx.bad("market names itself as rent receiver", c(14));
                }
                let ra = cx.acc(&receiver);
                if !cx.p(&receiver).1 || ra.executable {
                    cx.bad("rent receiver not writable", c(14) | c(22));
                }
            }
            finish_fail!();
            m.feats |= (d[0] as u64) << 56 | st << 60;
            if d[0] == 5 {
                let mut ra = cx.acc(&receiver);
                ra.lamports += macc.lamports;
                cx.ov.insert(receiver, ra);
                gone = true;
            } else {
                m.v.hdr.status = d[0] as u64;
            }
        }
        tag::SEAT_STATUS => {
            let k = cx.key(4).unwrap_or_default();
            let a = cx.acc(&k);
            let s = seat_view(&a);
            if d.len() != 1 || d[0] > 2 {
                cx.bad("malformed instruction data", BADDATA | c(15));
            }
            match &s {
                None => cx.bad("seat does not exist", c(15) | c(17)),
                Some(s) => {
                    if s.market != mk || k != seat_pda(&mk, &s.trader).0 {
                        cx.bad("seat of another market", c(15) | c(17));
                    } else if d.len() == 1 && d[0] <= 2 {
                        res.trader = s.trader;
                        let n = d[0] as u64;
                        let okt = s.status == n || matches!((s.status, n), (0, 1) | (1, 0) | (1, 2) | (0, 2));
                        if !okt {
                            cx.bad("seat transition not permitted", c(15));
                        }
                        if s.status != n && !cx.p(&k).1 {
                            cx.bad("seat not writable", c(22));
                        }
                    }
                }
            }
            finish_fail!();
            let s = s.unwrap();
            let n = d[0] as u64;
            m.feats |= n << 56 | s.status << 60;
            if s.status != n {
                if n == 1 {
                    stop!(m.register(&s.trader, c(15)));
                }
                let mut a = a;
                a.data[72..80].copy_from_slice(&n.to_le_bytes());
                cx.ov.insert(k, a);
            }
        }
        tag::EVICT => {
            let trader = cx.key(4).unwrap_or_default();
            res.trader = trader;
            cx.seat(5, &mk, &trader, false);
            let v = cx.vaults(6, &h, &trader);
            finish_fail!();
            let t = match m.v.traders.get(&trader) {
                Some(t) => *t,
                None => {
                    res.feats = m.feats;
                    res.expect = one("evicting someone who is not registered", c(15));
                    return res;
                }
            };
            if t.ql > 0 || t.bl > 0 || pre.bids.iter().chain(pre.asks.iter()).any(|o| o.owner == trader) {
                res.feats = m.feats;
                res.expect = one("evicting a trader with orders", c(15) | c(2) | c(3));
                return res;
            }
            m.claim(&trader, t.qf, t.bf);
            m.v.traders.remove(&trader);
            tx!(cx.transfer(&v.quote_vault, &v.quote_acc, &v.quote_vault, t.qf, h.quote_lot));
            tx!(cx.transfer(&v.base_vault, &v.base_acc, &v.base_vault, t.bf, h.base_lot));
        }
        tag::COLLECT => {
            let to = cx.token(4, &h.quote_mint, &h.fee_recipient, c(6) | c(16));
            let from = cx.vault(5, &h.quote_mint, &h.quote_vault);
            cx.program(6, &spl_token::id());
            finish_fail!();
            let f = m.v.unclaimed;
            m.v.unclaimed = 0;
            m.v.collected += f;
            let x = m.v.collected;
            m.cap(x);
            m.ev.push(Ev::Fee { fees: f });
            if f > 0 {
                m.feats |= feat::FEE;
            }
            tx!(cx.transfer(&from, &to, &from, f, h.quote_lot));
        }
        tag::FEE_RECIPIENT => {
            let k = cx.key(4).unwrap_or_default();
            let prev = cx.metas.get(5).copied();
            if pre.unclaimed > 0 {
                m.feats |= feat::FEE;
                let signed = prev.map(|p| p == h.fee_recipient && cx.p(&p).0).unwrap_or(false);
                if !signed {
                    cx.bad("current fee recipient did not agree", c(16) | c(6));
                }
            }
            finish_fail!();
            m.v.hdr.fee_recipient = k;
        }
        _ => unreachable!(),
    }
    if !cx.rent_ok() {
        res.feats = m.feats;
        res.expect = one("account left below rent exemption", c(22));
        return res;
    }
    if !gone {
        m.v.hdr.seq += 1;
    }
    res.feats = m.feats;
    let eff = Box::new(Eff {
        market: if gone { None } else { Some(m.v) },
        accounts: cx.ov,
        ev: m.ev,
        ids: m.ids,
    });
    res.expect = if aliased {
        Expect::Unknown("aliased accounts")
    } else if m.ovf || 4 + 16 * eff.ids.len() > crate::svm::MAX_RETURN {
        Expect::May(eff)
    } else {
        Expect::Ok(eff)
    };
    res
}

fn init(_ix: &Instruction, mut cx: Cx, res: &mut Resolved, d: &[u8]) {
    let mk = res.market;
    let signer = res.signer;
    const X: P = c(21);
    let ma = cx.acc(&mk);
    if ma.owner != phoenix::id() {
        cx.bad("market account not owned by the program", X | c(17));
    }
    if ma.data.len() < HDR {
        cx.bad("market account too small", X | c(22));
    } else {
        let h = header(&ma.data).unwrap();
        if h.disc != 0 || h.status != 0 {
            cx.bad("market initialised twice", X | c(17));
        }
    }
    let mut mints = vec![];
    for i in 4..6 {
        let k = cx.key(i).unwrap_or_default();
        let a = cx.acc(&k);
        let ok = a.owner == spl_token::id() && a.data.len() == 82 && a.data[45] == 1;
        if !ok {
            cx.bad("not a mint", X | c(17));
            mints.push((k, 0u32));
        } else {
            mints.push((k, a.data[44] as u32));
        }
    }
    let mut vaults = vec![];
    for i in 6..8 {
        let k = cx.key(i).unwrap_or_default();
        let a = cx.acc(&k);
        if !a.data.is_empty() || a.owner != system_program::id() {
            cx.bad("vault already exists", X | c(17));
        }
        if k != vault_pda(&mk, &mints[i - 6].0).0 {
            cx.bad("not the vault address", X | c(17));
        }
        vaults.push(k);
    }
    cx.program(8, &system_program::id());
    cx.program(9, &spl_token::id());
    let p = match InitP::decode(d) {
        Some(p) => p,
        None => {
            cx.bad("malformed instruction data", BADDATA | X);
            res.expect = Expect::Fail(cx.why);
            return;
        }
    };
    if mints[0].0 == mints[1].0 {
        cx.bad("same mint on both sides", X | c(17));
    }
    if p.bps > 10000 {
        cx.bad("fee above 100%", X | c(6));
    }
    if p.tick == 0 {
        cx.bad("tick size zero", X);
    }
    if p.raw == Some(0) {
        cx.bad("base lot of zero atoms", X);
    }
    let pow = |e: u32| -> Option<u128> {
        if e >= 20 {
            None
        } else {
            Some(10u128.pow(e))
        }
    };
    let raw = p.raw.unwrap_or(1) as u128;
    let ba = pow(mints[0].1).map(|x| x * raw).filter(|x| *x <= u64::MAX as u128);
    let qa = pow(mints[1].1);
    if ba.is_none() || qa.is_none() {
        cx.bad("token units do not fit", X | c(22));
    }
    let ba = ba.unwrap_or(1);
    let qa = qa.unwrap_or(1);
    if p.b_per_unit == 0 || ba % (p.b_per_unit.max(1) as u128) != 0 {
        cx.bad("base lots do not divide the unit", X);
    }
    if p.q_per_unit == 0 || qa % (p.q_per_unit.max(1) as u128) != 0 {
        cx.bad("quote lots do not divide the unit", X);
    }
    if p.b_per_unit == 0 || p.tick % p.b_per_unit.max(1) != 0 {
        cx.bad("tick is not a whole number of quote lots per base lot", X);
    }
    let qlot = qa / p.q_per_unit.max(1) as u128;
    let blot = ba / p.b_per_unit.max(1) as u128;
    let tick_atoms = qlot * p.tick as u128;
    if tick_atoms > u64::MAX as u128 {
        cx.bad("tick in atoms does not fit", X | c(22));
    }
    if !SIZES.contains(&p.sizes) {
        cx.bad("unsupported market size", X | c(24));
    } else if ma.data.len() < market_len(&p.sizes) {
        cx.bad("market account too small for its size", X | c(22) | c(24));
    } else if ma.data[HDR..].iter().any(|b| *b != 0) {
        res.expect = Expect::Unknown("market body not fresh");
        return;
    }
    if !cx.why.is_empty() {
        res.expect = Expect::Fail(cx.why);
        return;
    }
    for i in 0..2 {
        let native = mints[i].0 == spl_token::native_mint::id();
        let l = match cx.create(&signer, &vaults[i], TOKEN_RENT, vec![], spl_token::id()) {
            Ok(l) => l,
            Err(e) => {
                res.expect = Expect::Fail(vec![e]);
                return;
            }
        };
        let amount = if native { l.saturating_sub(TOKEN_RENT) } else { 0 };
        let mut a = cx.ov.get(&vaults[i]).cloned().unwrap();
        a.data = token_bytes(&mints[i].0, &vaults[i], amount, native);
        cx.ov.insert(vaults[i], a);
    }
    if !cx.rent_ok() {
        res.expect = Expect::Fail(vec![r("payer left below rent exemption", c(22))]);
        return;
    }
    let hdr = Hdr {
        disc: MARKET_DISC,
        status: 2,
        sizes: p.sizes,
        base_dec: mints[0].1,
        base_bump: vault_pda(&mk, &mints[0].0).1 as u32,
        base_mint: mints[0].0,
        base_vault: vaults[0],
        base_lot: blot as u64,
        quote_dec: mints[1].1,
        quote_bump: vault_pda(&mk, &mints[1].0).1 as u32,
        quote_mint: mints[1].0,
        quote_vault: vaults[1],
        quote_lot: qlot as u64,
        tick_atoms: tick_atoms as u64,
        authority: signer,
        fee_recipient: Pubkey::new_from_array(p.collector),
        seq: 1,
        successor: signer,
        raw: raw as u32,
        pad: true,
    };
    let v = MView {
        hdr,
        b: p.b_per_unit,
        tick: p.tick,
        oseq: 1,
        bps: p.bps as u64,
        collected: 0,
        unclaimed: 0,
        bids: vec![],
        asks: vec![],
        traders: BTreeMap::<Pubkey, TState>::new(),
        structure: vec![],
    };
    res.expect = Expect::Ok(Box::new(Eff { market: Some(v), accounts: cx.ov, ev: vec![], ids: vec![] }));
}
