//! The instruction encoding as clients see it, decoded independently of the program's own types.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Side {
    Bid,
    Ask,
}
impl Side {
    pub fn opp(self) -> Side {
        match self {
            Side::Bid => Side::Ask,
            Side::Ask => Side::Bid,
        }
    }
    pub fn of_seq(seq: u64) -> Side {
        if seq >> 63 == 1 {
            Side::Bid
        } else {
            Side::Ask
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stb {
    Abort,
    CancelProvide,
    DecrementTake,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    PostOnly,
    Limit,
    Ioc,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Pkt {
    pub kind: Kind,
    pub side: Side,
    /// None only possible for IOC
    pub price: Option<u64>,
    pub base: u64,
    pub quote: u64,
    pub min_base: u64,
    pub min_quote: u64,
    pub stb: Stb,
    pub match_limit: Option<u64>,
    pub coid: u128,
    pub reject: bool,
    pub only_deposited: bool,
    pub lvs: Option<u64>,
    pub lvt: Option<u64>,
    pub silent: bool,
}

impl Pkt {
    pub fn new(kind: Kind, side: Side) -> Pkt {
        Pkt {
            kind,
            side,
            price: Some(1),
            base: 0,
            quote: 0,
            min_base: 0,
            min_quote: 0,
            stb: Stb::CancelProvide,
            match_limit: None,
            coid: 0,
            reject: true,
            only_deposited: false,
            lvs: None,
            lvt: None,
            silent: false,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::default();
        match self.kind {
            Kind::PostOnly => {
                w.u8(0);
                w.side(self.side);
                w.u64(self.price.unwrap_or(0));
                w.u64(self.base);
                w.u128(self.coid);
                w.bool(self.reject);
                w.bool(self.only_deposited);
                w.opt64(self.lvs);
                w.opt64(self.lvt);
                w.bool(self.silent);
            }
            Kind::Limit => {
                w.u8(1);
                w.side(self.side);
                w.u64(self.price.unwrap_or(0));
                w.u64(self.base);
                w.stb(self.stb);
                w.opt64(self.match_limit);
                w.u128(self.coid);
                w.bool(self.only_deposited);
                w.opt64(self.lvs);
                w.opt64(self.lvt);
                w.bool(self.silent);
            }
            Kind::Ioc => {
                w.u8(2);
                w.side(self.side);
                w.opt64(self.price);
                w.u64(self.base);
                w.u64(self.quote);
                w.u64(self.min_base);
                w.u64(self.min_quote);
                w.stb(self.stb);
                w.opt64(self.match_limit);
                w.u128(self.coid);
                w.bool(self.only_deposited);
                w.opt64(self.lvs);
                w.opt64(self.lvt);
            }
        }
        w.0
    }
}

#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(&mut self, v: u8) {
        self.0.push(v)
    }
    pub fn bool(&mut self, v: bool) {
        self.0.push(v as u8)
    }
    pub fn side(&mut self, v: Side) {
        self.0.push(v as u8)
    }
    pub fn stb(&mut self, v: Stb) {
        self.0.push(v as u8)
    }
    pub fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u64(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u128(&mut self, v: u128) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn opt64(&mut self, v: Option<u64>) {
        match v {
            None => self.u8(0),
            Some(x) => {
                self.u8(1);
                self.u64(x)
            }
        }
    }
    pub fn opt32(&mut self, v: Option<u32>) {
        match v {
            None => self.u8(0),
            Some(x) => {
                self.u8(1);
                self.u32(x)
            }
        }
    }
    pub fn key(&mut self, k: &[u8]) {
        self.0.extend_from_slice(k)
    }
}

pub struct R<'a> {
    pub d: &'a [u8],
}
type O<T> = Option<T>;
impl<'a> R<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        R { d }
    }
    pub fn take(&mut self, n: usize) -> O<&'a [u8]> {
        if self.d.len() < n {
            return None;
        }
        let (a, b) = self.d.split_at(n);
        self.d = b;
        Some(a)
    }
    pub fn u8(&mut self) -> O<u8> {
        self.take(1).map(|b| b[0])
    }
    pub fn u16(&mut self) -> O<u16> {
        self.take(2).map(|b| u16::from_le_bytes(b.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> O<u32> {
        self.take(4).map(|b| u32::from_le_bytes(b.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> O<u64> {
        self.take(8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
    }
    pub fn i64(&mut self) -> O<i64> {
        self.u64().map(|x| x as i64)
    }
    pub fn u128(&mut self) -> O<u128> {
        self.take(16).map(|b| u128::from_le_bytes(b.try_into().unwrap()))
    }
    pub fn bool(&mut self) -> O<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> O<T>) -> O<O<T>> {
        match self.u8()? {
            0 => Some(None),
            1 => Some(Some(f(self)?)),
            _ => None,
        }
    }
    pub fn side(&mut self) -> O<Side> {
        match self.u8()? {
            0 => Some(Side::Bid),
            1 => Some(Side::Ask),
            _ => None,
        }
    }
    pub fn stb(&mut self) -> O<Stb> {
        match self.u8()? {
            0 => Some(Stb::Abort),
            1 => Some(Stb::CancelProvide),
            2 => Some(Stb::DecrementTake),
            _ => None,
        }
    }
    pub fn end(&self) -> O<()> {
        if self.d.is_empty() {
            Some(())
        } else {
            None
        }
    }
}

fn packet_exact(d: &[u8]) -> O<Pkt> {
    let mut r = R::new(d);
    let p = match r.u8()? {
        0 => {
            let side = r.side()?;
            let mut p = Pkt::new(Kind::PostOnly, side);
            p.price = Some(r.u64()?);
            p.base = r.u64()?;
            p.coid = r.u128()?;
            p.reject = r.bool()?;
            p.only_deposited = r.bool()?;
            p.lvs = r.opt(|r| r.u64())?;
            p.lvt = r.opt(|r| r.u64())?;
            p.silent = r.bool()?;
            p
        }
        1 => {
            let side = r.side()?;
            let mut p = Pkt::new(Kind::Limit, side);
            p.price = Some(r.u64()?);
            p.base = r.u64()?;
            p.stb = r.stb()?;
            p.match_limit = r.opt(|r| r.u64())?;
            p.coid = r.u128()?;
            p.only_deposited = r.bool()?;
            p.lvs = r.opt(|r| r.u64())?;
            p.lvt = r.opt(|r| r.u64())?;
            p.silent = r.bool()?;
            p
        }
        2 => {
            let side = r.side()?;
            let mut p = Pkt::new(Kind::Ioc, side);
            p.price = r.opt(|r| r.u64())?;
            p.base = r.u64()?;
            p.quote = r.u64()?;
            p.min_base = r.u64()?;
            p.min_quote = r.u64()?;
            p.stb = r.stb()?;
            p.match_limit = r.opt(|r| r.u64())?;
            p.coid = r.u128()?;
            p.only_deposited = r.bool()?;
            p.lvs = r.opt(|r| r.u64())?;
            p.lvt = r.opt(|r| r.u64())?;
            p
        }
        _ => return None,
    };
    r.end()?;
    Some(p)
}

/// Full encoding, or the encoding without the trailing optional fields (older clients).
pub fn packet(d: &[u8]) -> O<Pkt> {
    if let Some(p) = packet_exact(d) {
        return Some(p);
    }
    for pad in [3usize, 2, 1] {
        let mut v = d.to_vec();
        v.extend(std::iter::repeat(0u8).take(pad));
        if let Some(p) = packet_exact(&v) {
            return Some(p);
        }
    }
    None
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cond {
    pub price: u64,
    pub size: u64,
    pub lvs: Option<u64>,
    pub lvt: Option<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Multi {
    pub bids: Vec<Cond>,
    pub asks: Vec<Cond>,
    pub coid: Option<u128>,
    pub mode: u8,
}
impl Multi {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::default();
        for v in [&self.bids, &self.asks] {
            w.u32(v.len() as u32);
            for c in v {
                w.u64(c.price);
                w.u64(c.size);
                w.opt64(c.lvs);
                w.opt64(c.lvt);
            }
        }
        match self.coid {
            None => w.u8(0),
            Some(x) => {
                w.u8(1);
                w.u128(x)
            }
        }
        w.u8(self.mode);
        w.0
    }
    pub fn decode(d: &[u8]) -> O<Multi> {
        let mut r = R::new(d);
        let mut read = |r: &mut R| -> O<Vec<Cond>> {
            let n = r.u32()? as usize;
            let mut v = vec![];
            for _ in 0..n {
                v.push(Cond { price: r.u64()?, size: r.u64()?, lvs: r.opt(|r| r.u64())?, lvt: r.opt(|r| r.u64())? });
            }
            Some(v)
        };
        let bids = read(&mut r)?;
        let asks = read(&mut r)?;
        let coid = r.opt(|r| r.u128())?;
        let mode = r.u8()?;
        if mode > 3 {
            return None;
        }
        r.end()?;
        Some(Multi { bids, asks, coid, mode })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct UpTo {
    pub side: Side,
    pub tick: Option<u64>,
    pub search: Option<u32>,
    pub cancel: Option<u32>,
}
impl UpTo {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::default();
        w.side(self.side);
        w.opt64(self.tick);
        w.opt32(self.search);
        w.opt32(self.cancel);
        w.0
    }
    pub fn decode(d: &[u8]) -> O<UpTo> {
        let mut r = R::new(d);
        let u = UpTo {
            side: r.side()?,
            tick: r.opt(|r| r.u64())?,
            search: r.opt(|r| r.u32())?,
            cancel: r.opt(|r| r.u32())?,
        };
        r.end()?;
        Some(u)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Oid {
    pub side: Side,
    pub price: u64,
    pub seq: u64,
}
pub fn enc_ids(v: &[Oid]) -> Vec<u8> {
    let mut w = W::default();
    w.u32(v.len() as u32);
    for o in v {
        w.side(o.side);
        w.u64(o.price);
        w.u64(o.seq);
    }
    w.0
}
pub fn dec_ids(d: &[u8]) -> O<Vec<Oid>> {
    let mut r = R::new(d);
    let n = r.u32()?;
    let mut v = vec![];
    for _ in 0..n {
        v.push(Oid { side: r.side()?, price: r.u64()?, seq: r.u64()? });
    }
    r.end()?;
    Some(v)
}
pub fn enc_reduce(o: Oid, size: u64) -> Vec<u8> {
    let mut w = W::default();
    w.side(o.side);
    w.u64(o.price);
    w.u64(o.seq);
    w.u64(size);
    w.0
}
pub fn dec_reduce(d: &[u8]) -> O<(Oid, u64)> {
    let mut r = R::new(d);
    let o = Oid { side: r.side()?, price: r.u64()?, seq: r.u64()? };
    let s = r.u64()?;
    r.end()?;
    Some((o, s))
}

#[derive(Clone, Debug, PartialEq)]
pub struct InitP {
    pub sizes: [u64; 3],
    pub q_per_unit: u64,
    pub tick: u64,
    pub b_per_unit: u64,
    pub bps: u16,
    pub collector: [u8; 32],
    pub raw: Option<u32>,
}
impl InitP {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::default();
        for s in self.sizes {
            w.u64(s);
        }
        w.u64(self.q_per_unit);
        w.u64(self.tick);
        w.u64(self.b_per_unit);
        w.u16(self.bps);
        w.key(&self.collector);
        w.opt32(self.raw);
        w.0
    }
    pub fn decode(d: &[u8]) -> O<InitP> {
        let mut r = R::new(d);
        let p = InitP {
            sizes: [r.u64()?, r.u64()?, r.u64()?],
            q_per_unit: r.u64()?,
            tick: r.u64()?,
            b_per_unit: r.u64()?,
            bps: r.u16()?,
            collector: r.take(32)?.try_into().unwrap(),
            raw: r.opt(|r| r.u32())?,
        };
        r.end()?;
        Some(p)
    }
}
