//! The published interface description (idl/phoenix_v1.json), used the way a generated client uses
//! it: instructions are assembled from nothing but the description and executed next to the real
//! ones, and logs and accounts written by the program are compared with what the description says.
use crate::model::{c, Ev};
use crate::monitor;
use crate::observe::SIZES;
use crate::svm::Changed;
use crate::observe::MView;
use crate::oracle;
use crate::rng::{mix, Rng};
use crate::svm::Account;
use crate::wire::*;
use crate::workload::{self, Prof};
use crate::world::{Params, World};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::BTreeMap;
use std::sync::OnceLock;

// ------------------------------------------------------------------ JSON

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    fn yes(&self, k: &str) -> bool {
        self.get(k) == Some(&J::Bool(true))
    }
}

struct Pj<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Pj<'a> {
    fn ws(&mut self) {
        while self.s.get(self.i).map(|c| c.is_ascii_whitespace()).unwrap_or(false) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn word(&mut self, w: &str, j: J) -> Option<J> {
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Some(j)
        } else {
            None
        }
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut o = vec![];
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).ok(),
                b'\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'u' => {
                            self.i += 4;
                            o.push(b'?')
                        }
                        e => o.push(e),
                    }
                }
                c => o.push(c),
            }
        }
    }
    fn val(&mut self) -> Option<J> {
        self.ws();
        match *self.s.get(self.i)? {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if self.eat(b'}').is_some() {
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.val()?));
                    if self.eat(b',').is_none() {
                        self.eat(b'}')?;
                        return Some(J::Obj(v));
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                if self.eat(b']').is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.val()?);
                    if self.eat(b',').is_none() {
                        self.eat(b']')?;
                        return Some(J::Arr(v));
                    }
                }
            }
            b'"' => self.string().map(J::Str),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'n' => self.word("null", J::Null),
            _ => {
                let a = self.i;
                while self.s.get(self.i).map(|c| c.is_ascii_digit() || b"+-.eE".contains(c)).unwrap_or(false) {
                    self.i += 1;
                }
                std::str::from_utf8(&self.s[a..self.i]).ok()?.parse().ok().map(J::Num)
            }
        }
    }
}

pub struct Idl {
    types: BTreeMap<String, J>,
    /// by discriminant
    instrs: BTreeMap<u64, J>,
    address: String,
    errors: BTreeMap<u64, String>,
    /// what the description itself leaves open
    open: Vec<String>,
}

/// types that are used anywhere below
fn uses(j: &J, o: &mut Vec<String>) {
    match j {
        J::Arr(v) => v.iter().for_each(|x| uses(x, o)),
        J::Obj(v) => v.iter().for_each(|(k, x)| {
            if let ("defined", J::Str(s)) = (k.as_str(), x) {
                o.push(s.clone());
            }
            uses(x, o)
        }),
        _ => {}
    }
}

/// the errors the program defines, by number
fn errors() -> BTreeMap<u64, String> {
    use phoenix::program::PhoenixError::*;
    [
        InvalidMarketParameters,
        InvalidMarketAuthority,
        FailedToLoadMarketFromAccount,
        MarketAlreadyInitialized,
        MarketUninitialized,
        InvalidStateTransition,
        InvalidMarketSigner,
        InvalidLotSize,
        InvalidTickSize,
        InvalidMint,
        InvalidBaseVault,
        InvalidQuoteVault,
        InvalidBaseAccount,
        InvalidQuoteAccount,
        TooManyEvents,
        NewOrderError,
        ReduceOrderError,
        CancelMultipleOrdersError,
        WithdrawFundsError,
        RemoveEmptyOrdersError,
        TraderNotFound,
        InvalidSeatStatus,
        EvictionError,
        NonEmptyScratchBuffer,
        FailedToSerializeEvent,
        FailedToFlushBuffer,
    ]
    .into_iter()
    .map(|e| (u32::from(e) as u64, format!("{:?}", e)))
    .collect()
}

fn load() -> Result<Idl, String> {
    let repo = std::env::var("PHX_REPO").unwrap_or_else(|_| "/repo".into());
    let p = format!("{}/idl/phoenix_v1.json", repo);
    let t = std::fs::read(&p).map_err(|e| format!("{}: {}", p, e))?;
    let j = Pj { s: &t, i: 0 }.val().ok_or("the interface description is not valid JSON")?;
    let mut types = BTreeMap::new();
    for k in ["types", "accounts"] {
        for t in j.get(k).map(|x| x.arr()).unwrap_or(&[]) {
            types.insert(t.get("name").map(|x| x.str()).unwrap_or("").to_string(), t.get("type").cloned().unwrap_or(J::Null));
        }
    }
    let mut instrs = BTreeMap::new();
    for i in j.get("instructions").map(|x| x.arr()).unwrap_or(&[]) {
        if let Some(J::Num(n)) = i.get("discriminant").and_then(|d| d.get("value")) {
            if instrs.insert(*n as u64, i.clone()).is_some() {
                return Err(format!("two instructions are described with the number {}", n));
            }
        }
    }
    let address = j.get("metadata").and_then(|m| m.get("address")).map(|x| x.str().to_string()).unwrap_or_default();
    let mut errors = BTreeMap::new();
    for e in j.get("errors").map(|x| x.arr()).unwrap_or(&[]) {
        if let (Some(J::Num(c)), Some(n)) = (e.get("code"), e.get("name")) {
            errors.insert(*c as u64, n.str().to_string());
        }
    }
    let mut used = vec![];
    uses(&j, &mut used);
    used.sort();
    used.dedup();
    let open = used.into_iter().filter(|u| !types.contains_key(u)).collect();
    Ok(Idl { types, instrs, address, errors, open })
}

pub fn idl() -> &'static Result<Idl, String> {
    static I: OnceLock<Result<Idl, String>> = OnceLock::new();
    I.get_or_init(load)
}

/// names as a client sees them, whatever the convention of its language
fn norm(s: &str) -> String {
    s.chars().filter(|c| *c != '_').collect::<String>().to_lowercase()
}

// ------------------------------------------------------------------ values

#[derive(Clone, Debug)]
pub enum V {
    N(u128),
    B(bool),
    K(Pubkey),
    O(Option<Box<V>>),
    L(Vec<V>),
    S(Vec<(&'static str, V)>),
    /// variant by name
    E(&'static str, Box<V>),
    /// nothing
    U,
}
fn n(x: u64) -> V {
    V::N(x as u128)
}
fn on(x: Option<u64>) -> V {
    V::O(x.map(|x| Box::new(n(x))))
}
fn en(s: &'static str) -> V {
    V::E(s, Box::new(V::U))
}
fn side(s: Side) -> V {
    en(match s {
        Side::Bid => "Bid",
        Side::Ask => "Ask",
    })
}

type Enc = Vec<Option<u8>>;

impl Idl {
    /// what a client writes (or expects to read) for this value; padding is left open
    fn enc(&self, t: &J, v: &V, o: &mut Enc) -> Result<(), String> {
        let int = |w: usize, o: &mut Enc| -> Result<(), String> {
            match v {
                V::N(x) => {
                    if w < 16 && *x >> (8 * w) != 0 {
                        return Err(format!("a value does not fit the {} bytes described", w));
                    }
                    o.extend(x.to_le_bytes()[..w].iter().map(|b| Some(*b)));
                    Ok(())
                }
                v => Err(format!("{:?} where {:?} is described", v, t)),
            }
        };
        match t {
            J::Str(s) => match s.as_str() {
                "u8" | "i8" => int(1, o),
                "u16" | "i16" => int(2, o),
                "u32" | "i32" => int(4, o),
                "u64" | "i64" => int(8, o),
                "u128" | "i128" => int(16, o),
                "bool" => match v {
                    V::B(x) => {
                        o.push(Some(*x as u8));
                        Ok(())
                    }
                    v => Err(format!("{:?} where a bool is described", v)),
                },
                "publicKey" => match v {
                    V::K(k) => {
                        o.extend(k.as_ref().iter().map(|b| Some(*b)));
                        Ok(())
                    }
                    v => Err(format!("{:?} where a key is described", v)),
                },
                s => Err(format!("unknown type {}", s)),
            },
            J::Obj(f) if f.len() == 1 => {
                let (k, x) = &f[0];
                match k.as_str() {
                    "defined" => {
                        let d = self.types.get(x.str()).ok_or(format!("the type {} is used but not described", x.str()))?;
                        self.def(x.str(), d, v, o)
                    }
                    "option" => match v {
                        V::O(None) => {
                            o.push(Some(0));
                            Ok(())
                        }
                        V::O(Some(y)) => {
                            o.push(Some(1));
                            self.enc(x, y, o)
                        }
                        v => Err(format!("{:?} where an option is described", v)),
                    },
                    "vec" => match v {
                        V::L(l) => {
                            o.extend((l.len() as u32).to_le_bytes().iter().map(|b| Some(*b)));
                            l.iter().try_for_each(|y| self.enc(x, y, o))
                        }
                        v => Err(format!("{:?} where a list is described", v)),
                    },
                    k => Err(format!("unknown type {}", k)),
                }
            }
            t => Err(format!("unknown type {:?}", t)),
        }
    }
    fn size(&self, t: &J) -> usize {
        match t {
            J::Str(s) => match s.as_str() {
                "u8" | "i8" | "bool" => 1,
                "u16" => 2,
                "u32" => 4,
                "u128" => 16,
                "publicKey" => 32,
                _ => 8,
            },
            J::Obj(f) if f.len() == 1 && f[0].0 == "array" => match f[0].1.arr() {
                [t, J::Num(k)] => self.size(t) * *k as usize,
                _ => 0,
            },
            _ => 0,
        }
    }
    fn fields(&self, name: &str, fs: &[J], v: &V, o: &mut Enc) -> Result<(), String> {
        // a tuple of one
        if let [f] = fs {
            if f.get("name").is_none() {
                return self.enc(f, v, o);
            }
        }
        let have = match v {
            V::S(s) => s,
            V::U if fs.is_empty() => return Ok(()),
            v => return Err(format!("{:?} where {} is described", v, name)),
        };
        let mut used = 0;
        for f in fs {
            let k = norm(f.get("name").map(|x| x.str()).unwrap_or(""));
            let t = f.get("type").ok_or("a field without a type")?;
            if k.starts_with("padding") {
                o.extend(std::iter::repeat(None).take(self.size(t)));
                continue;
            }
            match have.iter().find(|x| norm(x.0) == k) {
                Some((_, y)) => {
                    used += 1;
                    self.enc(t, y, o).map_err(|e| format!("{}.{}: {}", name, k, e))?
                }
                None => return Err(format!("{} is described with a field {} that the program does not have", name, k)),
            }
        }
        if used != have.len() {
            return Err(format!("{} is described without some of its fields", name));
        }
        Ok(())
    }
    fn def(&self, name: &str, d: &J, v: &V, o: &mut Enc) -> Result<(), String> {
        match d.get("kind").map(|x| x.str()) {
            Some("struct") => self.fields(name, d.get("fields").map(|x| x.arr()).unwrap_or(&[]), v, o),
            Some("enum") => {
                let vs = d.get("variants").map(|x| x.arr()).unwrap_or(&[]);
                let (w, y) = match v {
                    V::E(w, y) => (w, y),
                    v => return Err(format!("{:?} where {} is described", v, name)),
                };
                let i = vs
                    .iter()
                    .position(|x| norm(x.get("name").map(|x| x.str()).unwrap_or("")) == norm(w))
                    .ok_or(format!("{} is described without {}", name, w))?;
                o.push(Some(i as u8));
                let f = vs[i].get("fields").map(|x| x.arr()).unwrap_or(&[]);
                if f.is_empty() {
                    return match **y {
                        V::U => Ok(()),
                        _ => Err(format!("{} {} is described without its fields", name, w)),
                    };
                }
                self.fields(w, f, y, o)
            }
            _ => Err(format!("{} is described as something unknown", name)),
        }
    }
    pub fn named(&self, name: &str, v: &V) -> Result<Enc, String> {
        let mut o = vec![];
        let d = self.types.get(name).ok_or(format!("the type {} is not described", name))?;
        self.def(name, d, v, &mut o)?;
        Ok(o)
    }
}

fn full(e: &Enc) -> Option<Vec<u8>> {
    e.iter().copied().collect()
}
fn fits(e: &Enc, d: &[u8]) -> bool {
    e.len() == d.len() && e.iter().zip(d).all(|(a, b)| a.map(|a| a == *b).unwrap_or(true))
}

// ------------------------------------------------------------------ what the program means

fn pkt(p: &Pkt) -> V {
    let stb = en(match p.stb {
        Stb::Abort => "Abort",
        Stb::CancelProvide => "CancelProvide",
        Stb::DecrementTake => "DecrementTake",
    });
    let mut f = vec![
        ("side", side(p.side)),
        ("num_base_lots", n(p.base)),
        ("client_order_id", V::N(p.coid)),
        ("use_only_deposited_funds", V::B(p.only_deposited)),
        ("last_valid_slot", on(p.lvs)),
        ("last_valid_unix_timestamp_in_seconds", on(p.lvt)),
    ];
    if p.kind == Kind::Ioc {
        f.push(("price_in_ticks", on(p.price)));
    } else {
        f.push(("price_in_ticks", n(p.price.unwrap_or(0))));
        f.push(("fail_silently_on_insufficient_funds", V::B(p.silent)));
    }
    if p.kind != Kind::PostOnly {
        f.push(("self_trade_behavior", stb));
        f.push(("match_limit", on(p.match_limit)));
    }
    match p.kind {
        Kind::PostOnly => {
            f.push(("reject_post_only", V::B(p.reject)));
            V::E("PostOnly", Box::new(V::S(f)))
        }
        Kind::Limit => V::E("Limit", Box::new(V::S(f))),
        Kind::Ioc => {
            f.push(("num_quote_lots", n(p.quote)));
            f.push(("min_base_lots_to_fill", n(p.min_base)));
            f.push(("min_quote_lots_to_fill", n(p.min_quote)));
            V::E("ImmediateOrCancel", Box::new(V::S(f)))
        }
    }
}

fn conds(v: &[Cond]) -> V {
    V::L(
        v.iter()
            .map(|x| {
                V::S(vec![
                    ("price_in_ticks", n(x.price)),
                    ("size_in_base_lots", n(x.size)),
                    ("last_valid_slot", on(x.lvs)),
                    ("last_valid_unix_timestamp_in_seconds", on(x.lvt)),
                ])
            })
            .collect(),
    )
}
fn oid(o: &Oid) -> V {
    V::S(vec![("side", side(o.side)), ("price_in_ticks", n(o.price)), ("order_sequence_number", n(o.seq))])
}
pub const STATUS_NAMES: [&str; 6] = ["Uninitialized", "Active", "PostOnly", "Paused", "Closed", "Tombstoned"];
pub const SEAT_NAMES: [&str; 3] = ["NotApproved", "Approved", "Retired"];

/// name and arguments of an instruction
fn meaning(ix: &Instruction) -> Option<(&'static str, Vec<V>)> {
    let d = &ix.data[1..];
    let upto = |d: &[u8]| {
        UpTo::decode(d).map(|u| {
            vec![V::S(vec![
                ("side", side(u.side)),
                ("tick_limit", on(u.tick)),
                ("num_orders_to_search", on(u.search.map(|x| x as u64))),
                ("num_orders_to_cancel", on(u.cancel.map(|x| x as u64))),
            ])]
        })
    };
    let reduce = |d: &[u8]| dec_reduce(d).map(|(o, s)| vec![V::S(vec![("base_params", oid(&o)), ("size", n(s))])]);
    let ids = |d: &[u8]| dec_ids(d).map(|v| vec![V::S(vec![("orders", V::L(v.iter().map(oid).collect()))])]);
    let multi = |d: &[u8]| {
        let m = Multi::decode(d)?;
        let mode = *[
            "FailOnInsufficientFundsAndAmendOnCross",
            "FailOnInsufficientFundsAndFailOnCross",
            "SkipOnInsufficientFundsAndAmendOnCross",
            "SkipOnInsufficientFundsAndFailOnCross",
        ]
        .get(m.mode as usize)?;
        Some(vec![V::S(vec![
            ("bids", conds(&m.bids)),
            ("asks", conds(&m.asks)),
            ("client_order_id", V::O(m.coid.map(|x| Box::new(V::N(x))))),
            ("failed_multiple_limit_order_behavior", en(mode)),
        ])])
    };
    let packet = |d: &[u8]| packet(d).map(|p| vec![pkt(&p)]);
    Some(match ix.data[0] {
        0 => ("Swap", packet(d)?),
        1 => ("SwapWithFreeFunds", packet(d)?),
        2 => ("PlaceLimitOrder", packet(d)?),
        3 => ("PlaceLimitOrderWithFreeFunds", packet(d)?),
        4 => ("ReduceOrder", reduce(d)?),
        5 => ("ReduceOrderWithFreeFunds", reduce(d)?),
        6 => ("CancelAllOrders", vec![]),
        7 => ("CancelAllOrdersWithFreeFunds", vec![]),
        8 => ("CancelUpTo", upto(d)?),
        9 => ("CancelUpToWithFreeFunds", upto(d)?),
        10 => ("CancelMultipleOrdersById", ids(d)?),
        11 => ("CancelMultipleOrdersByIdWithFreeFunds", ids(d)?),
        12 => {
            let (q, b) = oracle::dec_withdraw(d)?;
            ("WithdrawFunds", vec![V::S(vec![("quote_lots_to_withdraw", on(q)), ("base_lots_to_withdraw", on(b))])])
        }
        13 => {
            let (q, b) = oracle::dec_deposit(d)?;
            ("DepositFunds", vec![V::S(vec![("quote_lots_to_deposit", n(q)), ("base_lots_to_deposit", n(b))])])
        }
        14 => ("RequestSeat", vec![]),
        16 => ("PlaceMultiplePostOnlyOrders", multi(d)?),
        17 => ("PlaceMultiplePostOnlyOrdersWithFreeFunds", multi(d)?),
        100 => {
            let p = InitP::decode(d)?;
            (
                "InitializeMarket",
                vec![V::S(vec![
                    ("market_size_params", sizes(&p.sizes)),
                    ("num_quote_lots_per_quote_unit", n(p.q_per_unit)),
                    ("tick_size_in_quote_lots_per_base_unit", n(p.tick)),
                    ("num_base_lots_per_base_unit", n(p.b_per_unit)),
                    ("taker_fee_bps", n(p.bps as u64)),
                    ("fee_collector", V::K(Pubkey::new(&p.collector))),
                    ("raw_base_units_per_base_unit", on(p.raw.map(|x| x as u64))),
                ])],
            )
        }
        101 => ("ClaimAuthority", vec![]),
        102 => ("NameSuccessor", vec![V::K(Pubkey::new(d.get(..32).filter(|_| d.len() == 32)?))]),
        103 => ("ChangeMarketStatus", vec![en(STATUS_NAMES.get(*d.first()? as usize)?)]),
        104 => ("ChangeSeatStatus", vec![en(SEAT_NAMES.get(*d.first()? as usize)?)]),
        105 => ("RequestSeatAuthorized", vec![]),
        106 => ("EvictSeat", vec![]),
        107 => ("ForceCancelOrders", upto(d)?),
        108 => ("CollectFees", vec![]),
        109 => ("ChangeFeeRecipient", vec![]),
        _ => return None,
    })
}

fn sizes(s: &[u64; 3]) -> V {
    V::S(vec![("bids_size", n(s[0])), ("asks_size", n(s[1])), ("num_seats", n(s[2]))])
}

fn header(v: &MView) -> V {
    let h = &v.hdr;
    let tp = |d: u32, b: u32, m: Pubkey, k: Pubkey| {
        V::S(vec![("decimals", n(d as u64)), ("vault_bump", n(b as u64)), ("mint_key", V::K(m)), ("vault_key", V::K(k))])
    };
    V::S(vec![
        ("discriminant", n(h.disc)),
        ("status", n(h.status)),
        ("market_size_params", sizes(&h.sizes)),
        ("base_params", tp(h.base_dec, h.base_bump, h.base_mint, h.base_vault)),
        ("base_lot_size", n(h.base_lot)),
        ("quote_params", tp(h.quote_dec, h.quote_bump, h.quote_mint, h.quote_vault)),
        ("quote_lot_size", n(h.quote_lot)),
        ("tick_size_in_quote_atoms_per_base_unit", n(h.tick_atoms)),
        ("authority", V::K(h.authority)),
        ("fee_recipient", V::K(h.fee_recipient)),
        ("market_sequence_number", n(h.seq)),
        ("successor", V::K(h.successor)),
        ("raw_base_units_per_base_unit", n(h.raw as u64)),
    ])
}

fn event(i: u16, e: &Ev) -> V {
    let i = ("index", n(i as u64));
    let (k, f) = match e {
        Ev::Fill { maker, seq, price, filled, remaining } => (
            "Fill",
            vec![
                i,
                ("maker_id", V::K(*maker)),
                ("order_sequence_number", n(*seq)),
                ("price_in_ticks", n(*price)),
                ("base_lots_filled", n(*filled)),
                ("base_lots_remaining", n(*remaining)),
            ],
        ),
        Ev::Place { seq, coid, price, lots } => (
            "Place",
            vec![i, ("order_sequence_number", n(*seq)), ("client_order_id", V::N(*coid)), ("price_in_ticks", n(*price)), ("base_lots_placed", n(*lots))],
        ),
        Ev::Reduce { seq, price, removed, remaining } => (
            "Reduce",
            vec![i, ("order_sequence_number", n(*seq)), ("price_in_ticks", n(*price)), ("base_lots_removed", n(*removed)), ("base_lots_remaining", n(*remaining))],
        ),
        Ev::Evict { maker, seq, price, lots } => (
            "Evict",
            vec![i, ("maker_id", V::K(*maker)), ("order_sequence_number", n(*seq)), ("price_in_ticks", n(*price)), ("base_lots_evicted", n(*lots))],
        ),
        Ev::Summary { coid, base, quote, fee } => (
            "FillSummary",
            vec![
                i,
                ("client_order_id", V::N(*coid)),
                ("total_base_lots_filled", V::N(*base)),
                ("total_quote_lots_filled", V::N(*quote)),
                ("total_fee_in_quote_lots", V::N(*fee)),
            ],
        ),
        Ev::Fee { fees } => ("Fee", vec![i, ("fees_collected_in_quote_lots", V::N(*fees))]),
        Ev::Tif { seq, slot, ts } => (
            "TimeInForce",
            vec![i, ("order_sequence_number", n(*seq)), ("last_valid_slot", n(*slot)), ("last_valid_unix_timestamp_in_seconds", n(*ts))],
        ),
        Ev::Expired { maker, seq, price, removed } => (
            "ExpiredOrder",
            vec![i, ("maker_id", V::K(*maker)), ("order_sequence_number", n(*seq)), ("price_in_ticks", n(*price)), ("base_lots_removed", n(*removed))],
        ),
    };
    V::E(k, Box::new(V::S(f)))
}

// ------------------------------------------------------------------ the monitor

type Done = (bool, BTreeMap<Pubkey, Account>, Vec<Vec<u8>>, Option<Vec<u8>>);

fn outcome(w: &World, ix: &Instruction) -> (Done, String) {
    let mut b = w.s.bank.clone();
    let o = b.execute(ix);
    let keys: Vec<Changed> = o.changed;
    let m = keys.iter().map(|ch| (ch.key, b.get(&ch.key).cloned().unwrap_or_default())).collect();
    ((o.ok, m, o.logs, o.ret.map(|x| x.1)), o.err)
}

/// the account a client passes for a described name, where the name settles it; the people named in the
/// instruction are told apart by their place
fn account(w: &World, name: &str, ix: &Instruction, mints: &(Pubkey, Pubkey)) -> Option<Pubkey> {
    let mk = ix.accounts.get(2)?.pubkey;
    // the trader concerned: named after the authority, or the signer
    let trader = match ix.data[0] {
        104 => None,
        105 => ix.accounts.get(5),
        106 | 107 => ix.accounts.get(4),
        _ => ix.accounts.get(3),
    };
    let vaults = (oracle::vault_pda(&mk, &mints.0).0, oracle::vault_pda(&mk, &mints.1).0);
    let tokens = |m: &Pubkey| {
        let mut v = ix.accounts.iter().map(|a| a.pubkey).filter(|k| *k != vaults.0 && *k != vaults.1).filter(|k| {
            w.s.bank.get(k).and_then(oracle::tok_amount).map(|t| t.0 == *m).unwrap_or(false)
        });
        v.next()
    };
    Some(match name {
        "phoenixprogram" => phoenix::id(),
        "logauthority" => oracle::log_authority(),
        "market" => mk,
        "basemint" => mints.0,
        "quotemint" => mints.1,
        "basevault" => vaults.0,
        "quotevault" => vaults.1,
        "tokenprogram" => spl_token::id(),
        "systemprogram" => system_program::id(),
        "baseaccount" => tokens(&mints.0)?,
        "quoteaccount" | "feerecipient" => tokens(&mints.1)?,
        "seat" => oracle::seat_pda(&mk, &trader?.pubkey).0,
        "trader" => trader?.pubkey,
        "payer" if ix.data[0] == 105 => ix.accounts.get(4)?.pubkey,
        "payer" | "marketcreator" | "successor" | "marketauthority" | "sweeper" => ix.accounts.get(3)?.pubkey,
        "newfeerecipient" => ix.accounts.get(4)?.pubkey,
        _ => return None,
    })
}

/// the instruction a client makes from the description; None if this one cannot be expressed
fn rebuild(w: &World, d: &Idl, ix: &Instruction, mints: &(Pubkey, Pubkey)) -> Option<Result<(String, Instruction), String>> {
    let (name, args) = meaning(ix)?;
    let t = match d.instrs.get(&(ix.data[0] as u64)) {
        Some(t) => t,
        None => return Some(Err(format!("instruction {} ({}) is not described", ix.data[0], name))),
    };
    let called = t.get("name").map(|x| x.str()).unwrap_or("");
    if norm(called) != norm(name) {
        return Some(Err(format!("instruction {} is {} but described as {}", ix.data[0], name, called)));
    }
    let ts = t.get("args").map(|x| x.arr()).unwrap_or(&[]);
    if ts.len() != args.len() {
        return Some(Err(format!("{} takes {} arguments, {} are described", name, args.len(), ts.len())));
    }
    let mut data: Enc = vec![Some(ix.data[0])];
    for (t, v) in ts.iter().zip(&args) {
        if let Err(e) = d.enc(t.get("type").unwrap_or(&J::Null), v, &mut data) {
            return Some(Err(format!("{}: {}", name, e)));
        }
    }
    let data = match full(&data) {
        Some(d) => d,
        None => return Some(Err(format!("{}: an argument contains padding", name))),
    };
    let acc = t.get("accounts").map(|x| x.arr()).unwrap_or(&[]);
    // accounts that are not part of the description: the receiver of a deleted market's lamports, and
    // the fee recipient who consents
    let fixed = match ix.data[0] {
        103 => 4,
        109 => 5,
        _ => usize::MAX,
    };
    let mut v = vec![];
    let none = AccountMeta::new_readonly(system_program::id(), false);
    for i in 0..ix.accounts.len().max(acc.len()) {
        let a = ix.accounts.get(i).unwrap_or(&none);
        match acc.get(i) {
            None if i >= fixed => v.push(a.clone()),
            None => {}
            Some(x) => {
                let key = account(w, &norm(x.get("name").map(|x| x.str()).unwrap_or("")), ix, mints).unwrap_or(a.pubkey);
                v.push(AccountMeta { pubkey: key, is_signer: x.yes("isSigner"), is_writable: x.yes("isMut") });
            }
        }
    }
    Some(Ok((called.to_string(), Instruction { program_id: ix.program_id, accounts: v, data })))
}

/// the fields of a log entry mean what they are called: the entries against the books before and after
fn meant(w: &World, ix: &Instruction, pre: &MView, post: &MView, bs: &[monitor::Batch]) -> Vec<String> {
    let mut bad = vec![];
    let find = |v: &MView, s: u64| v.bids.iter().chain(&v.asks).find(|o| o.seq == s).cloned();
    let mut idx = 0u64;
    for b in bs {
        let signer = ix.accounts.get(3).map(|a| a.pubkey).unwrap_or_default();
        if b.instr != ix.data[0] || b.slot != w.s.bank.slot || b.ts != w.s.bank.unix_timestamp || b.market != ix.accounts[2].pubkey || b.signer != signer {
            bad.push("the header of a log entry does not name the instruction, moment, market and signer where described".to_string());
        }
        for (i, e) in &b.events {
            if *i as u64 != idx & 0xffff {
                bad.push("the index of a log event is not where described".into());
            }
            idx += 1;
            let o = |s: u64| find(pre, s);
            let ok = match e {
                Ev::Fill { maker, seq, price, filled, remaining } => {
                    o(*seq).map(|o| (o.owner, o.price) == (*maker, *price) && *filled > 0 && filled.checked_add(*remaining) == Some(o.size)).unwrap_or(true)
                }
                Ev::Reduce { seq, price, removed, remaining } => {
                    o(*seq).map(|o| o.price == *price && removed.checked_add(*remaining) == Some(o.size)).unwrap_or(true)
                }
                Ev::Evict { maker, seq, price, lots } => o(*seq).map(|o| (o.owner, o.price, o.size) == (*maker, *price, *lots)).unwrap_or(true),
                Ev::Expired { maker, seq, price, removed } => {
                    o(*seq).map(|o| (o.owner, o.price, o.size) == (*maker, *price, *removed)).unwrap_or(true)
                }
                Ev::Place { seq, coid, price, lots } => {
                    let c = match meaning(ix) {
                        Some((_, a)) => a.iter().filter_map(coid_of).next(),
                        None => None,
                    };
                    find(post, *seq).map(|o| (o.price, o.size) == (*price, *lots)).unwrap_or(true) && c.map(|c| c == *coid).unwrap_or(true)
                }
                Ev::Tif { seq, slot, ts } => find(post, *seq).map(|o| (o.lvs, o.lvt) == (*slot, *ts)).unwrap_or(true),
                Ev::Summary { coid, base, .. } => {
                    let c = match meaning(ix) {
                        Some((_, a)) => a.iter().filter_map(coid_of).next(),
                        None => None,
                    };
                    let f: u128 = bs.iter().flat_map(|b| &b.events).map(|(_, e)| if let Ev::Fill { filled, .. } = e { *filled as u128 } else { 0 }).sum();
                    f == *base && c.map(|c| c == *coid).unwrap_or(true)
                }
                Ev::Fee { fees } => *fees == pre.unclaimed,
            };
            if !ok {
                bad.push(format!("the fields of a log event do not mean what the description calls them: {:?}", e));
            }
        }
    }
    bad
}

/// the client order id given with a single order
fn coid_of(v: &V) -> Option<u128> {
    match v {
        V::E(_, f) => match &**f {
            V::S(f) => f.iter().find(|x| x.0 == "client_order_id").and_then(|x| if let V::N(n) = x.1 { Some(n) } else { None }),
            _ => None,
        },
        _ => None,
    }
}

/// executes the instruction a generated client would send next to the real one
fn compare(w: &mut World, d: &Idl, ix: &Instruction, mints: &(Pubkey, Pubkey)) {
    let (base, err) = outcome(w, ix);
    if !base.0 {
        if let Some(code) = err.split("Custom(").nth(1).and_then(|x| x.split(')').next()).and_then(|x| x.parse::<u64>().ok()) {
            // errors of the token program pass through under its own numbers
            match d.errors.get(&code) {
                Some(e) => w.s.stats.note(27, mix(&[2704, code]), || format!("refused with {} ({}), as described", code, e)),
                // the injected fault of a nested call
                None if code == 0xdead => {}
                None => w.fail(c(27), format!("refused with error {}, which is not described", code)),
            }
        }
        return;
    }
    let (name, x) = match rebuild(w, d, ix, mints) {
        None => return,
        Some(Err(e)) => {
            w.fail(c(27), format!("interface description: {}", e));
            return;
        }
        Some(Ok(x)) => x,
    };
    let (got, _) = outcome(w, &x);
    if got != base {
        let what = if got.0 != base.0 { "fails" } else { "has another effect" };
        w.fail(c(27), format!("{} made from the interface description {}", name, what));
    }
    let sg = |i: &Instruction| i.accounts.iter().filter(|a| a.is_signer).map(|a| a.pubkey).collect::<std::collections::BTreeSet<_>>();
    if sg(&x) != sg(ix) {
        w.fail(c(27), format!("{} is described with other signers than needed", name));
    }
    let sig = mix(&[27, ix.data[0] as u64, base.1.len() as u64, base.2.len() as u64, x.data.len() as u64]);
    w.s.stats.note(27, sig, || format!("{} made from the description, {} accounts written", name, base.1.len()));
    // the log, the ids returned and the accounts written, read as the description says
    let mut bad = vec![];
    let mk = ix.accounts.get(2).map(|a| a.pubkey).unwrap_or_default();
    let bs: Vec<monitor::Batch> = base.2.iter().filter_map(|l| monitor::decode_batch(l)).collect();
    if let (Some(a), Some(z)) = (w.s.bank.get(&mk), base.1.get(&mk)) {
        if let (Ok(a), Ok(z)) = (crate::observe::market(&a.data), crate::observe::market(&z.data)) {
            bad = meant(w, ix, &a, &z, &bs);
        }
    }
    for l in &base.2 {
        let batch = monitor::decode_batch(l);
        if batch.is_none() {
            bad.push("a log entry does not read as described".into());
        }
        if let Some(b) = batch {
            let mut want: Enc = vec![Some(15)];
            let h = V::E(
                "Header",
                Box::new(V::S(vec![
                    ("instruction", n(b.instr as u64)),
                    ("sequence_number", n(b.seq)),
                    ("timestamp", n(b.ts as u64)),
                    ("slot", n(b.slot)),
                    ("market", V::K(b.market)),
                    ("signer", V::K(b.signer)),
                    ("total_events", n(b.total as u64)),
                ])),
            );
            let mut r = d.named("PhoenixMarketEvent", &h).map(|x| want.extend(x));
            for (i, e) in &b.events {
                if r.is_ok() {
                    r = d.named("PhoenixMarketEvent", &event(*i, e)).map(|x| want.extend(x));
                    let sig = mix(&[2700, event_kind(e)]);
                    w.s.stats.note(27, sig, || format!("log event {:?} reads as described", e));
                }
            }
            match r {
                Err(e) => bad.push(format!("interface description of the log: {}", e)),
                Ok(()) if !fits(&want, l) => bad.push("a log entry does not read as described".into()),
                _ => {}
            }
        }
    }
    if let Some(ret) = &base.3 {
        // a vector of order ids
        let mut want: Enc = vec![];
        let mut r = R::new(ret);
        let mut ids = vec![];
        if let Some(k) = r.u32() {
            for _ in 0..k {
                if let (Some(p), Some(s)) = (r.u64(), r.u64()) {
                    ids.push((p, s));
                }
            }
            want.extend(k.to_le_bytes().iter().map(|b| Some(*b)));
            let mut ok = Ok(());
            for (p, s) in &ids {
                let v = V::S(vec![("price_in_ticks", n(*p)), ("order_sequence_number", n(*s))]);
                ok = ok.and_then(|_| d.named("FIFOOrderId", &v).map(|x| want.extend(x)));
            }
            match ok {
                Err(e) => bad.push(format!("interface description of the returned ids: {}", e)),
                Ok(()) if !fits(&want, ret) => bad.push("the returned order ids do not read as described".into()),
                _ => w.s.stats.note(27, mix(&[2701, ids.len() as u64]), || format!("{} returned ids read as described", ids.len())),
            }
        }
    }
    for (k, a) in &base.1 {
        if a.owner != phoenix::id() {
            continue;
        }
        if let Some(s) = oracle::seat_view(a) {
            let v = V::S(vec![
                ("discriminant", n(oracle::SEAT_DISC)),
                ("market", V::K(s.market)),
                ("trader", V::K(s.trader)),
                ("approval_status", n(s.status)),
            ]);
            match d.named("Seat", &v) {
                Err(e) => bad.push(format!("interface description of seats: {}", e)),
                Ok(x) if !fits(&x, &a.data) => bad.push(format!("seat {} does not read as described", k)),
                Ok(_) => w.s.stats.note(27, mix(&[2702, s.status]), || format!("seat in state {} reads as described", s.status)),
            }
        } else if let Ok(v) = crate::observe::market(&a.data) {
            match d.named("MarketHeader", &header(&v)) {
                Err(e) => bad.push(format!("interface description of markets: {}", e)),
                Ok(x) if a.data.len() < 576 || !fits(&x, &a.data[..576]) => bad.push(format!("market {} does not read as described", k)),
                Ok(_) => w.s.stats.note(27, mix(&[2703, v.hdr.status, v.hdr.sizes[0]]), || format!("header of market in state {} reads as described", v.hdr.status)),
            }
        }
    }
    for b in bad {
        w.fail(c(27), b);
    }
}

fn event_kind(e: &Ev) -> u64 {
    match e {
        Ev::Fill { .. } => 2,
        Ev::Place { .. } => 3,
        Ev::Reduce { .. } => 4,
        Ev::Evict { .. } => 5,
        Ev::Summary { .. } => 6,
        Ev::Fee { .. } => 7,
        Ev::Tif { .. } => 8,
        Ev::Expired { .. } => 9,
    }
}

pub fn run(seed: u64, label: String, pf: &Prof) -> World {
    let mut w = workload::build_with(seed, label, pf, true);
    let d = match idl() {
        Ok(d) => d,
        Err(e) => {
            w.fail(c(27), format!("interface description: {}", e));
            return w;
        }
    };
    if d.address != phoenix::id().to_string() {
        w.fail(c(27), format!("the interface description is for the program {}", d.address));
    }
    for t in &d.open {
        w.fail(c(27), format!("interface description: the type {} is used but not described", t));
    }
    for i in d.instrs.keys() {
        if !matches!(i, 0..=17 | 100..=109) {
            w.fail(c(27), format!("interface description: the program has no instruction {}", i));
        }
    }
    if d.instrs.get(&15).and_then(|i| i.get("name")).map(|x| x.str()) != Some("Log") {
        w.fail(c(27), "interface description: instruction 15 is Log".into());
    }
    let errs = errors();
    if errs != d.errors {
        let x = errs.iter().find(|e| d.errors.get(e.0) != Some(e.1)).map(|e| format!("{} {}", e.0, e.1));
        w.fail(c(27), format!("interface description: the errors differ from the program's ({})", x.unwrap_or("too many described".into())));
    }
    let mut r = Rng::new(mix(&[seed, 27]));
    if r.pct(50) {
        // a new market
        let mut p = Params::random(&mut r);
        p.native = 0;
        if r.pct(50) {
            p.sizes = SIZES[r.idx(12)];
        }
        let base = w.mint(p.base_dec, false);
        let quote = w.mint(p.quote_dec, false);
        let key = w.newkey();
        let creator = w.authority;
        let collector = w.fee_recipient;
        let space = crate::observe::market_len(&p.sizes);
        w.s.bank.accounts.insert(key, Account { lamports: (space as u64 + 128) * 6960, data: vec![0; space], owner: phoenix::id(), executable: false });
        let ix = w.init_ix(key, creator, &p, base, quote, collector);
        compare(&mut w, d, &ix, &(base, quote));
        w.step(&ix);
    }
    for _ in 0..pf.steps {
        if let Some(ix) = workload::next(&mut w, &mut r, pf) {
            let m = w.m.iter().find(|k| ix.accounts.get(2).map(|a| a.pubkey == k.key).unwrap_or(false));
            if let Some(m) = m {
                let mints = (m.base_mint, m.quote_mint);
                if !ix.data.is_empty() && ix.program_id == phoenix::id() {
                    compare(&mut w, d, &ix, &mints);
                }
            }
            w.step(&ix);
        }
    }
    w
}
