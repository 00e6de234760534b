//! What the monitors see of a market: the raw header plus the books and the trader registry, read out
//! of the account bytes after every instruction.
use crate::wire::Side;
use phoenix::state::markets::FIFOMarket;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub const HDR: usize = 576;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Order {
    pub price: u64,
    pub seq: u64,
    pub owner: Pubkey,
    pub size: u64,
    pub lvs: u64,
    pub lvt: u64,
}
impl Order {
    pub fn expired(&self, slot: u64, ts: u64) -> bool {
        (self.lvs != 0 && self.lvs < slot) || (self.lvt != 0 && self.lvt < ts)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct TState {
    pub ql: u128,
    pub qf: u128,
    pub bl: u128,
    pub bf: u128,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub disc: u64,
    pub status: u64,
    pub sizes: [u64; 3],
    pub base_dec: u32,
    pub base_bump: u32,
    pub base_mint: Pubkey,
    pub base_vault: Pubkey,
    pub base_lot: u64,
    pub quote_dec: u32,
    pub quote_bump: u32,
    pub quote_mint: Pubkey,
    pub quote_vault: Pubkey,
    pub quote_lot: u64,
    pub tick_atoms: u64,
    pub authority: Pubkey,
    pub fee_recipient: Pubkey,
    pub seq: u64,
    pub successor: Pubkey,
    pub raw: u32,
    pub pad: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MView {
    pub hdr: Hdr,
    pub b: u64,
    pub tick: u64,
    pub oseq: u64,
    pub bps: u64,
    pub collected: u128,
    pub unclaimed: u128,
    pub bids: Vec<Order>,
    pub asks: Vec<Order>,
    pub traders: BTreeMap<Pubkey, TState>,
    /// problems with the stored structure itself
    pub structure: Vec<String>,
}

impl MView {
    pub fn book(&self, s: Side) -> &Vec<Order> {
        match s {
            Side::Bid => &self.bids,
            Side::Ask => &self.asks,
        }
    }
    pub fn book_mut(&mut self, s: Side) -> &mut Vec<Order> {
        match s {
            Side::Bid => &mut self.bids,
            Side::Ask => &mut self.asks,
        }
    }
    pub fn quote_of(&self, price: u64, size: u64) -> u128 {
        price as u128 * self.tick as u128 * size as u128 / (self.b.max(1) as u128)
    }
    pub fn owed(&self) -> (u128, u128) {
        let mut b = 0;
        let mut q = self.unclaimed;
        for t in self.traders.values() {
            b += t.bl + t.bf;
            q += t.ql + t.qf;
        }
        (b, q)
    }
}

fn u(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn u4(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
fn k(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new(&d[o..o + 32])
}

pub fn header(d: &[u8]) -> Option<Hdr> {
    if d.len() < HDR {
        return None;
    }
    Some(Hdr {
        disc: u(d, 0),
        status: u(d, 8),
        sizes: [u(d, 16), u(d, 24), u(d, 32)],
        base_dec: u4(d, 40),
        base_bump: u4(d, 44),
        base_mint: k(d, 48),
        base_vault: k(d, 80),
        base_lot: u(d, 112),
        quote_dec: u4(d, 120),
        quote_bump: u4(d, 124),
        quote_mint: k(d, 128),
        quote_vault: k(d, 160),
        quote_lot: u(d, 192),
        tick_atoms: u(d, 200),
        authority: k(d, 208),
        fee_recipient: k(d, 240),
        seq: u(d, 272),
        successor: k(d, 280),
        raw: u4(d, 312),
        pad: d[316..HDR].iter().all(|b| *b == 0),
    })
}

fn body<const B: usize, const A: usize, const S: usize>(d: &[u8], v: &mut MView) -> Result<(), String> {
    let mut st = std::mem::take(&mut v.structure);
    let r = body_inner::<B, A, S>(d, v, &mut st);
    v.structure = st;
    r
}

fn body_inner<const B: usize, const A: usize, const S: usize>(
    d: &[u8],
    v: &mut MView,
    st: &mut Vec<String>,
) -> Result<(), String> {
    let sz = std::mem::size_of::<FIFOMarket<Pubkey, B, A, S>>();
    if d.len() < sz {
        return Err("market account too short".into());
    }
    let m: &FIFOMarket<Pubkey, B, A, S> =
        bytemuck::try_from_bytes(&d[..sz]).map_err(|e| format!("cannot view market body: {:?}", e))?;
    use sokoban::NodeAllocatorMap;
    if !m.traders.is_valid_red_black_tree() {
        st.push("trader tree invalid".into());
    }
    let mut n = 0;
    let mut last: Option<Pubkey> = None;
    for (key, t) in m.traders.iter() {
        n += 1;
        if n > S + 1 {
            st.push("trader tree does not terminate".into());
            break;
        }
        if last.map(|l| l >= *key).unwrap_or(false) {
            st.push("traders out of order or duplicated".into());
        }
        last = Some(*key);
        let raw = bytemuck::bytes_of(t);
        v.traders.insert(
            *key,
            TState {
                ql: t.quote_lots_locked.into_u(),
                qf: t.quote_lots_free.into_u(),
                bl: t.base_lots_locked.into_u(),
                bf: t.base_lots_free.into_u(),
            },
        );
        if raw[32..].iter().any(|b| *b != 0) {
            st.push("trader state padding not zero".into());
        }
    }
    if n != m.traders.len() {
        st.push(format!("trader tree size {} but {} reachable", m.traders.len(), n));
    }
    for side in [Side::Bid, Side::Ask] {
        let mut out = vec![];
        let mut cnt = 0usize;
        let cap = if side == Side::Bid { B } else { A };
        let (len, valid) = match side {
            Side::Bid => (m.bids.len(), m.bids.is_valid_red_black_tree()),
            Side::Ask => (m.asks.len(), m.asks.is_valid_red_black_tree()),
        };
        if !valid {
            st.push(format!("{:?} tree invalid", side));
        }
        let mut push = |id: &phoenix::state::markets::FIFOOrderId, o: &phoenix::state::markets::FIFORestingOrder, st: &mut Vec<String>| {
            let idx = o.trader_index;
            let mut owner = Pubkey::default();
            if idx == 0 || idx > S as u64 {
                st.push(format!("order with trader index {}", idx));
            } else {
                owner = m.traders.get_node(idx as u32).key;
                if m.traders.get_addr(&owner) as u64 != idx {
                    st.push(format!("order of an unregistered trader (index {})", idx));
                }
            }
            out.push(Order {
                price: id.price_in_ticks.into_u() as u64,
                seq: id.order_sequence_number,
                owner,
                size: o.num_base_lots.into_u() as u64,
                lvs: o.last_valid_slot,
                lvt: o.last_valid_unix_timestamp_in_seconds,
            });
        };
        match side {
            Side::Bid => {
                for (id, o) in m.bids.iter() {
                    cnt += 1;
                    if cnt > cap + 1 {
                        break;
                    }
                    push(id, o, st)
                }
            }
            Side::Ask => {
                for (id, o) in m.asks.iter() {
                    cnt += 1;
                    if cnt > cap + 1 {
                        break;
                    }
                    push(id, o, st)
                }
            }
        }
        if cnt != len {
            st.push(format!("{:?} tree size {} but {} reachable", side, len, cnt));
        }
        for w in out.windows(2) {
            let ok = match side {
                Side::Bid => w[0].price > w[1].price || (w[0].price == w[1].price && w[0].seq > w[1].seq),
                Side::Ask => w[0].price < w[1].price || (w[0].price == w[1].price && w[0].seq < w[1].seq),
            };
            if !ok {
                st.push(format!("{:?} book not in price-time order", side));
            }
        }
        for o in &out {
            if o.size == 0 {
                st.push("resting order of size zero".into());
            }
            if o.price == 0 {
                st.push("resting order of price zero".into());
            }
            if Side::of_seq(o.seq) != side {
                st.push("order identifier on the wrong side".into());
            }
        }
        *v.book_mut(side) = out;
    }
    Ok(())
}

pub trait IntoU {
    fn into_u(self) -> u128;
}
impl<T: phoenix::quantities::WrapperU64> IntoU for T {
    fn into_u(self) -> u128 {
        phoenix::quantities::WrapperU64::as_u64(&self) as u128
    }
}

pub const SIZES: [[u64; 3]; 12] = [
    [512, 512, 128],
    [512, 512, 1025],
    [512, 512, 1153],
    [1024, 1024, 128],
    [1024, 1024, 2049],
    [1024, 1024, 2177],
    [2048, 2048, 128],
    [2048, 2048, 4097],
    [2048, 2048, 4225],
    [4096, 4096, 128],
    [4096, 4096, 8193],
    [4096, 4096, 8321],
];

macro_rules! by_size {
    ($s:expr, $f:ident, $else:expr, $($a:expr),*) => {
        match ($s[0], $s[1], $s[2]) {
            (512, 512, 128) => $f::<512, 512, 128>($($a),*),
            (512, 512, 1025) => $f::<512, 512, 1025>($($a),*),
            (512, 512, 1153) => $f::<512, 512, 1153>($($a),*),
            (1024, 1024, 128) => $f::<1024, 1024, 128>($($a),*),
            (1024, 1024, 2049) => $f::<1024, 1024, 2049>($($a),*),
            (1024, 1024, 2177) => $f::<1024, 1024, 2177>($($a),*),
            (2048, 2048, 128) => $f::<2048, 2048, 128>($($a),*),
            (2048, 2048, 4097) => $f::<2048, 2048, 4097>($($a),*),
            (2048, 2048, 4225) => $f::<2048, 2048, 4225>($($a),*),
            (4096, 4096, 128) => $f::<4096, 4096, 128>($($a),*),
            (4096, 4096, 8193) => $f::<4096, 4096, 8193>($($a),*),
            (4096, 4096, 8321) => $f::<4096, 4096, 8321>($($a),*),
            _ => $else,
        }
    };
}

fn sz<const B: usize, const A: usize, const S: usize>() -> usize {
    HDR + std::mem::size_of::<FIFOMarket<Pubkey, B, A, S>>()
}

pub fn market_len(s: &[u64; 3]) -> usize {
    by_size!(s, sz, HDR,)
}

pub fn market(d: &[u8]) -> Result<MView, String> {
    let hdr = header(d).ok_or("no header")?;
    let b = &d[HDR..];
    if b.len() < 256 + 48 {
        return Err("no body".into());
    }
    let mut v = MView {
        b: u(b, 256),
        tick: u(b, 264),
        oseq: u(b, 272),
        bps: u(b, 280),
        collected: u(b, 288) as u128,
        unclaimed: u(b, 296) as u128,
        bids: vec![],
        asks: vec![],
        traders: BTreeMap::new(),
        structure: vec![],
        hdr,
    };
    if b[..256].iter().any(|x| *x != 0) || !v.hdr.pad {
        v.structure.push("padding not zero".into());
    }
    let s = v.hdr.sizes;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<MView, String> {
        by_size!(s, body, Err(format!("unsupported size {:?}", s)), b, &mut v)?;
        Ok(v.clone())
    }));
    match r {
        Ok(x) => x,
        Err(_) => Err("market structure unreadable (panic while walking it)".into()),
    }
}
