//! Independent parsers of the exchange's on-chain account formats, straight from the bytes.
use crate::chain::Aid;
use solana_program::pubkey::Pubkey;

pub const F_INIT: u64 = 1;
pub const F_MARKET: u64 = 2;
pub const F_OO: u64 = 4;
pub const F_REQQ: u64 = 8;
pub const F_EVQ: u64 = 16;
pub const F_BIDS: u64 = 32;
pub const F_ASKS: u64 = 64;
pub const F_DISABLED: u64 = 128;
pub const F_CLOSED: u64 = 256;
pub const F_PERM: u64 = 512;
pub const F_CRANK: u64 = 1024;

pub type Key = [u8; 32];

pub const OO_LEN: usize = 3216 + 12;
pub const MARKET_LEN: usize = 376 + 12;
pub const MARKET_V2_LEN: usize = 376 + 96 + 992 + 12;

fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn u32_at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
fn u128_at(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
fn key_at(d: &[u8], o: usize) -> Key {
    d[o..o + 32].try_into().unwrap()
}

pub fn padded(d: &[u8]) -> bool {
    d.len() >= 12 && &d[..5] == b"serum" && &d[d.len() - 7..] == b"padding"
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Market {
    pub flags: u64,
    pub own: Key,
    pub nonce: u64,
    pub coin_mint: Key,
    pub pc_mint: Key,
    pub coin_vault: Key,
    pub coin_dep: u64,
    pub coin_fees: u64,
    pub pc_vault: Key,
    pub pc_dep: u64,
    pub pc_fees: u64,
    pub dust: u64,
    pub req_q: Key,
    pub event_q: Key,
    pub bids: Key,
    pub asks: Key,
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub fee_bps: u64,
    pub rebates: u64,
    pub oo_auth: Key,
    pub prune_auth: Key,
    pub crank_auth: Key,
    /// Header and trailer intact.
    pub framed: bool,
    /// The reserved tail of a permissioned market is still zero.
    pub tail_zero: bool,
}

pub fn market(d: &[u8]) -> Option<Market> {
    if d.len() < MARKET_LEN {
        return None;
    }
    let b = &d[5..];
    let mut m = Market {
        flags: u64_at(b, 0),
        own: key_at(b, 8),
        nonce: u64_at(b, 40),
        coin_mint: key_at(b, 48),
        pc_mint: key_at(b, 80),
        coin_vault: key_at(b, 112),
        coin_dep: u64_at(b, 144),
        coin_fees: u64_at(b, 152),
        pc_vault: key_at(b, 160),
        pc_dep: u64_at(b, 192),
        pc_fees: u64_at(b, 200),
        dust: u64_at(b, 208),
        req_q: key_at(b, 216),
        event_q: key_at(b, 248),
        bids: key_at(b, 280),
        asks: key_at(b, 312),
        coin_lot: u64_at(b, 344),
        pc_lot: u64_at(b, 352),
        fee_bps: u64_at(b, 360),
        rebates: u64_at(b, 368),
        oo_auth: [0; 32],
        prune_auth: [0; 32],
        crank_auth: [0; 32],
        framed: padded(d),
        tail_zero: true,
    };
    if d.len() >= MARKET_V2_LEN {
        m.oo_auth = key_at(b, 376);
        m.prune_auth = key_at(b, 408);
        m.crank_auth = key_at(b, 440);
        m.tail_zero = d[5 + 472..d.len() - 7].iter().all(|x| *x == 0);
    }
    Some(m)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Slot {
    pub slot: u8,
    pub oid: u128,
    pub bid: bool,
    pub cid: u64,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Oo {
    pub flags: u64,
    pub market: Key,
    pub owner: Key,
    pub coin_free: u64,
    pub coin_total: u64,
    pub pc_free: u64,
    pub pc_total: u64,
    /// Filled slots only, in slot order.
    pub slots: Vec<Slot>,
    pub rebates: u64,
    pub framed: bool,
}

pub fn oo(d: &[u8]) -> Option<Oo> {
    if d.len() != OO_LEN {
        return None;
    }
    let b = &d[5..];
    let free = u128_at(b, 104);
    let bids = u128_at(b, 120);
    let mut slots = vec![];
    let flags = u64_at(b, 0);
    if flags & F_OO != 0 {
        for i in 0..128usize {
            if free & (1u128 << i) == 0 {
                slots.push(Slot {
                    slot: i as u8,
                    oid: u128_at(b, 136 + 16 * i),
                    bid: bids & (1u128 << i) != 0,
                    cid: u64_at(b, 136 + 2048 + 8 * i),
                });
            }
        }
    }
    Some(Oo {
        flags,
        market: key_at(b, 8),
        owner: key_at(b, 40),
        coin_free: u64_at(b, 72),
        coin_total: u64_at(b, 80),
        pc_free: u64_at(b, 88),
        pc_total: u64_at(b, 96),
        slots,
        rebates: u64_at(b, 136 + 2048 + 1024),
        framed: padded(d),
    })
}

impl Oo {
    pub fn live(&self) -> bool {
        self.flags == F_INIT | F_OO
    }
    pub fn slot_of(&self, oid: u128) -> Option<&Slot> {
        self.slots.iter().find(|s| s.oid == oid)
    }
    pub fn at(&self, slot: u8) -> Option<&Slot> {
        self.slots.iter().find(|s| s.slot == slot)
    }
    pub fn lowest_free(&self) -> Option<u8> {
        (0..128u8).find(|i| !self.slots.iter().any(|s| s.slot == *i))
    }
    pub fn fill_slot(&mut self, s: Slot) {
        let p = self.slots.iter().position(|x| x.slot > s.slot).unwrap_or(self.slots.len());
        self.slots.insert(p, s);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub fill: bool,
    pub bid: bool,
    pub maker: bool,
    pub release: bool,
    pub slot: u8,
    pub tier: u8,
    /// Fill: amount received. Out: amount unlocked.
    pub a: u64,
    /// Fill: amount paid. Out: amount still locked.
    pub b: u64,
    pub fee: u64,
    pub oid: u128,
    pub owner: Key,
    pub cid: u64,
    pub valid: bool,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct EvQ {
    pub flags: u64,
    pub head: u64,
    pub count: u64,
    pub seq: u64,
    pub cap: u64,
    pub evs: Vec<Ev>,
    pub framed: bool,
}

pub fn evq(d: &[u8]) -> Option<EvQ> {
    if d.len() < 12 + 32 {
        return None;
    }
    let b = &d[5..d.len() - 7];
    let cap = ((b.len() - 32) / 88) as u64;
    let (flags, head, count, seq) = (u64_at(b, 0), u64_at(b, 8), u64_at(b, 16), u64_at(b, 24));
    let mut evs = vec![];
    if cap > 0 && count <= cap && flags & F_EVQ != 0 {
        for i in 0..count {
            let j = ((head as u128 + i as u128) % cap as u128) as usize;
            let e = &b[32 + 88 * j..32 + 88 * (j + 1)];
            let fl = e[0];
            let fill = fl & 1 != 0;
            evs.push(Ev {
                fill,
                bid: fl & 4 != 0,
                maker: fl & 8 != 0,
                release: fl & 0x10 != 0,
                slot: e[1],
                tier: e[2],
                a: u64_at(e, 8),
                b: u64_at(e, 16),
                fee: u64_at(e, 24),
                oid: u128_at(e, 32),
                owner: key_at(e, 48),
                cid: u64_at(e, 80),
                valid: (fl & 1 != 0) ^ (fl & 2 != 0) && fl & 0xe0 == 0,
            });
        }
    }
    Some(EvQ { flags, head, count, seq, cap, evs, framed: padded(d) })
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ReqQ {
    pub flags: u64,
    pub head: u64,
    pub count: u64,
    pub next: u64,
    pub framed: bool,
}

pub fn reqq(d: &[u8]) -> Option<ReqQ> {
    if d.len() < 12 + 32 {
        return None;
    }
    let b = &d[5..];
    Some(ReqQ { flags: u64_at(b, 0), head: u64_at(b, 8), count: u64_at(b, 16), next: u64_at(b, 24), framed: padded(d) })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Leaf {
    pub key: u128,
    pub slot: u8,
    pub tier: u8,
    pub owner: Key,
    pub qty: u64,
    pub cid: u64,
}

impl Leaf {
    pub fn price(&self) -> u64 {
        (self.key >> 64) as u64
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Book {
    pub flags: u64,
    /// Ascending by key.
    pub leaves: Vec<Leaf>,
    pub max_leaves: u64,
    /// Why the tree or its free list is malformed, if it is.
    pub bad: Option<String>,
    pub framed: bool,
}

pub fn book(d: &[u8]) -> Option<Book> {
    if d.len() < 12 + 8 + 32 {
        return None;
    }
    let b = &d[5..d.len() - 7];
    let flags = u64_at(b, 0);
    let s = &b[8..];
    let (bump, free_len, free_head, root, leaf_count) =
        (u64_at(s, 0), u64_at(s, 8), u32_at(s, 16), u32_at(s, 20), u64_at(s, 24));
    let n = ((s.len() - 32) / 72) as u64;
    let node = |i: u64| -> &[u8] { &s[32 + 72 * i as usize..32 + 72 * (i as usize + 1)] };
    let mut out = Book { flags, leaves: vec![], max_leaves: (n + 1) / 2, bad: None, framed: padded(d) };
    if flags & (F_BIDS | F_ASKS) == 0 {
        return Some(out);
    }
    if bump > n || free_len > bump {
        out.bad = Some(format!("bump {} free {} of {} nodes", bump, free_len, n));
        return Some(out);
    }
    // Free list.
    let mut used = vec![0u8; n as usize];
    let mut cur = free_head as u64;
    for i in 0..free_len {
        if cur >= bump || used[cur as usize] != 0 {
            out.bad = Some(format!("free list broken at element {}", i));
            return Some(out);
        }
        used[cur as usize] = 1;
        let tag = u32_at(node(cur), 0);
        let want = if i + 1 == free_len { 4 } else { 3 };
        if tag != want {
            out.bad = Some(format!("free list tag {} instead of {}", tag, want));
            return Some(out);
        }
        cur = u32_at(node(cur), 4) as u64;
    }
    // Tree.
    let mut live = 0u64;
    if leaf_count > 0 {
        // (node, lower bound of prefix length, prefix key)
        let mut stack: Vec<(u64, u32, Option<(u128, u32, bool)>)> = vec![(root as u64, 0, None)];
        while let Some((h, minp, constraint)) = stack.pop() {
            if h >= bump || used[h as usize] != 0 {
                out.bad = Some("tree points to a free, repeated or unallocated node".to_string());
                return Some(out);
            }
            used[h as usize] = 2;
            live += 1;
            let nd = node(h);
            let key = u128_at(nd, 8);
            if let Some((pk, plen, bit)) = constraint {
                let mask = if plen == 0 { 0 } else { !0u128 << (128 - plen) };
                let b = key & (1u128 << (127 - plen)) != 0;
                if key & mask != pk & mask || b != bit {
                    out.bad = Some("key outside its subtree".to_string());
                    return Some(out);
                }
            }
            match u32_at(nd, 0) {
                1 => {
                    let plen = u32_at(nd, 4);
                    if plen >= 128 || (constraint.is_some() && plen < minp) {
                        out.bad = Some("prefix lengths not increasing".to_string());
                        return Some(out);
                    }
                    stack.push((u32_at(nd, 28) as u64, plen + 1, Some((key, plen, true))));
                    stack.push((u32_at(nd, 24) as u64, plen + 1, Some((key, plen, false))));
                }
                2 => out.leaves.push(Leaf {
                    slot: nd[4],
                    tier: nd[5],
                    key,
                    owner: key_at(nd, 24),
                    qty: u64_at(nd, 56),
                    cid: u64_at(nd, 64),
                }),
                t => {
                    out.bad = Some(format!("node tag {} in the tree", t));
                    return Some(out);
                }
            }
        }
    }
    if out.leaves.len() as u64 != leaf_count {
        out.bad = Some(format!("leaf count {} but {} leaves", leaf_count, out.leaves.len()));
    } else if live + free_len != bump {
        out.bad = Some(format!("storage leaked: {} live + {} free of {} allocated", live, free_len, bump));
    } else if out.leaves.windows(2).any(|w| w[0].key >= w[1].key) {
        out.bad = Some("leaves out of order".to_string());
        out.leaves.sort_by_key(|l| l.key);
    }
    Some(out)
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Tok {
    pub mint: Key,
    pub owner: Key,
    pub amount: u64,
    pub delegate: Option<Key>,
    pub delegated: u64,
    pub state: u8,
    pub close_auth: Option<Key>,
}

pub fn tok(d: &[u8]) -> Option<Tok> {
    if d.len() != 165 {
        return None;
    }
    Some(Tok {
        mint: key_at(d, 0),
        owner: key_at(d, 32),
        amount: u64_at(d, 64),
        delegate: if u32_at(d, 72) == 1 { Some(key_at(d, 76)) } else { None },
        state: d[108],
        delegated: u64_at(d, 121),
        close_auth: if u32_at(d, 129) == 1 { Some(key_at(d, 133)) } else { None },
    })
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct MintSt {
    pub authority: Option<Key>,
    pub supply: u64,
    pub decimals: u8,
    pub init: bool,
    pub freeze: Option<Key>,
}

pub fn mint(d: &[u8]) -> Option<MintSt> {
    if d.len() != 82 {
        return None;
    }
    Some(MintSt {
        authority: if u32_at(d, 0) == 1 { Some(key_at(d, 4)) } else { None },
        supply: u64_at(d, 36),
        decimals: d[44],
        init: d[45] == 1,
        freeze: if u32_at(d, 46) == 1 { Some(key_at(d, 50)) } else { None },
    })
}

/// The exchange orders account keys as four little-endian words.
pub fn key_words(k: &Key) -> [u64; 4] {
    [u64_at(k, 0), u64_at(k, 8), u64_at(k, 16), u64_at(k, 24)]
}

pub fn pk(k: &Key) -> Pubkey {
    Pubkey::new(k)
}

pub fn tok_bytes(t: &Tok) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(&t.mint);
    d[32..64].copy_from_slice(&t.owner);
    d[64..72].copy_from_slice(&t.amount.to_le_bytes());
    if let Some(k) = t.delegate {
        d[72] = 1;
        d[76..108].copy_from_slice(&k);
    }
    d[108] = t.state;
    d[121..129].copy_from_slice(&t.delegated.to_le_bytes());
    if let Some(k) = t.close_auth {
        d[129] = 1;
        d[133..165].copy_from_slice(&k);
    }
    d
}

pub fn mint_bytes(m: &MintSt) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    if let Some(k) = m.authority {
        d[0] = 1;
        d[4..36].copy_from_slice(&k);
    }
    d[36..44].copy_from_slice(&m.supply.to_le_bytes());
    d[44] = m.decimals;
    d[45] = m.init as u8;
    if let Some(k) = m.freeze {
        d[46] = 1;
        d[50..82].copy_from_slice(&k);
    }
    d
}

#[derive(Clone, Debug, PartialEq)]
pub enum Parsed {
    Market(Market),
    Oo(Oo),
    EvQ(EvQ),
    ReqQ(ReqQ),
    Book(Book),
    Tok(Tok),
    Mint(MintSt),
    Pool(PoolAcct),
    Raw(Vec<u8>),
    Plain,
}

/// A pool account: blank, unreadable, or a pool.
#[derive(Clone, Debug, PartialEq)]
pub enum PoolAcct {
    Blank,
    Bad,
    State(PoolSt),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct PoolSt {
    pub mint: Key,
    pub assets: Vec<(Key, Key)>,
    pub signer: Key,
    pub nonce: u8,
    pub params: Vec<(Key, u8)>,
    pub name: Vec<u8>,
    pub lqd: Key,
    pub init: Key,
    pub fee: u32,
    pub admin: Option<Key>,
    pub custom: Vec<u8>,
}

pub const POOL_TAG: u64 = 0x16a7874c7fb2301b;

impl PoolSt {
    /// Length of the stored form.
    pub fn size(&self) -> usize {
        8 + 32
            + 4
            + 64 * self.assets.len()
            + 32
            + 1
            + 4
            + 33 * self.params.len()
            + 4
            + self.name.len()
            + 64
            + 4
            + 1
            + self.admin.map_or(0, |_| 32)
            + 4
            + self.custom.len()
    }
}

pub fn pool_acct(d: &[u8]) -> PoolAcct {
    if d.iter().all(|b| *b == 0) {
        return PoolAcct::Blank;
    }
    fn rd(d: &[u8]) -> Option<PoolSt> {
        let mut p = 0usize;
        let mut take = |n: usize| -> Option<&[u8]> {
            let r = d.get(p..p.checked_add(n)?)?;
            p += n;
            Some(r)
        };
        macro_rules! int {
            ($t:ty) => {
                <$t>::from_le_bytes(take(std::mem::size_of::<$t>())?.try_into().ok()?)
            };
        }
        macro_rules! key {
            () => {{
                let k: Key = take(32)?.try_into().ok()?;
                k
            }};
        }
        if int!(u64) != POOL_TAG {
            return None;
        }
        let mut s = PoolSt { mint: key!(), ..PoolSt::default() };
        for _ in 0..int!(u32).min(1000) {
            s.assets.push((key!(), key!()));
        }
        s.signer = key!();
        s.nonce = int!(u8);
        for _ in 0..int!(u32).min(1000) {
            s.params.push((key!(), int!(u8)));
        }
        let n = int!(u32) as usize;
        s.name = take(n)?.to_vec();
        s.lqd = key!();
        s.init = key!();
        s.fee = int!(u32);
        s.admin = match int!(u8) {
            0 => None,
            1 => Some(key!()),
            _ => return None,
        };
        let n = int!(u32) as usize;
        s.custom = take(n)?.to_vec();
        Some(s)
    }
    rd(d).map_or(PoolAcct::Bad, PoolAcct::State)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    Market(usize),
    EvQ(usize),
    ReqQ(usize),
    Bids(usize),
    Asks(usize),
    Oo,
    Tok,
    Mint,
    Pool,
    Raw,
    Other,
}

pub fn parse(role: Role, d: &[u8]) -> Parsed {
    match role {
        Role::Market(_) => market(d).map(Parsed::Market),
        Role::EvQ(_) => evq(d).map(Parsed::EvQ),
        Role::ReqQ(_) => reqq(d).map(Parsed::ReqQ),
        Role::Bids(_) | Role::Asks(_) => book(d).map(Parsed::Book),
        Role::Oo => oo(d).map(Parsed::Oo),
        Role::Tok => tok(d).map(Parsed::Tok),
        Role::Mint => mint(d).map(Parsed::Mint),
        Role::Pool => Some(Parsed::Pool(pool_acct(d))),
        Role::Raw => Some(Parsed::Raw(d.to_vec())),
        Role::Other => None,
    }
    .unwrap_or(Parsed::Plain)
}

#[allow(dead_code)]
pub type AidKey = (Aid, Key);
