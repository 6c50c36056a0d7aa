//! Accounts in the runtime's memory layout, and a call of the program on them.
#![allow(dead_code)]
use nitrate::program::AccountInfo;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};

pub type Key = [u8; 32];
pub const LEN: usize = 168;
pub fn key(n: u8) -> Key {
    [n; 32]
}
pub fn program() -> Key {
    asset_program::ID.to_bytes()
}

pub struct A(Vec<u64>);
impl A {
    /// An account with room to grow.
    pub fn new(k: Key, owner: Key, lamports: u64, data: &[u8], signer: bool) -> A {
        let mut a = A(vec![0; 11 + data.len() / 8 + 2048]);
        let b = a.raw();
        b[1] = signer as u8;
        b[2] = 1;
        b[8..40].copy_from_slice(&k);
        b[40..72].copy_from_slice(&owner);
        b[72..80].copy_from_slice(&lamports.to_le_bytes());
        b[80..88].copy_from_slice(&(data.len() as u64).to_le_bytes());
        b[88..88 + data.len()].copy_from_slice(data);
        a
    }
    pub fn wallet(k: Key, signer: bool) -> A {
        A::new(k, [0; 32], 1 << 40, &[], signer)
    }
    pub fn asset(k: Key, data: &[u8]) -> A {
        A::new(k, program(), 1 << 30, data, false)
    }
    /// Marker of an optional account that is not given.
    pub fn none() -> A {
        A::new(program(), [2; 32], 1, &[], false)
    }
    pub fn signed(mut self) -> A {
        self.raw()[1] = 1;
        self
    }
    fn raw(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr() as *mut u8, self.0.len() * 8) }
    }
    pub fn len(&mut self) -> usize {
        u64::from_le_bytes(self.raw()[80..88].try_into().unwrap()) as usize
    }
    pub fn lamports(&mut self) -> u64 {
        u64::from_le_bytes(self.raw()[72..80].try_into().unwrap())
    }
    pub fn data(&mut self) -> Vec<u8> {
        let n = self.len();
        self.raw()[88..88 + n].to_vec()
    }
    pub fn key_at(&mut self, o: usize) -> Key {
        self.data()[o..o + 32].try_into().unwrap()
    }
    pub fn u64_at(&mut self, o: usize) -> u64 {
        u64::from_le_bytes(self.data()[o..o + 8].try_into().unwrap())
    }
    pub fn u32_at(&mut self, o: usize) -> u32 {
        u32::from_le_bytes(self.data()[o..o + 4].try_into().unwrap())
    }
}

/// An initialized, unlocked, mutable asset.
pub struct Asset(pub Vec<u8>);
pub fn asset(owner: Key, authority: Key) -> Asset {
    let mut d = vec![0u8; LEN];
    d[0] = 1;
    d[3] = 1;
    d[4..36].copy_from_slice(&owner);
    d[68..100].copy_from_slice(&authority);
    Asset(d)
}
impl Asset {
    pub fn set(mut self, o: usize, b: &[u8]) -> Self {
        self.0[o..o + b.len()].copy_from_slice(b);
        self
    }
    pub fn locked(self) -> Self {
        self.set(1, &[1])
    }
    pub fn standard(self, s: u8) -> Self {
        self.set(2, &[s])
    }
    pub fn immutable(self) -> Self {
        self.set(3, &[0])
    }
    pub fn group(self, g: Key) -> Self {
        self.set(36, &g)
    }
    pub fn delegate(self, k: Key, roles: u8) -> Self {
        self.set(100, &k).set(132, &[roles])
    }
    pub fn ext(mut self, ty: u32, payload: &[u8]) -> Self {
        let o = self.0.len();
        let end = (o + 16 + payload.len() + 7) & !7;
        self.0.extend_from_slice(&ty.to_le_bytes());
        self.0.extend_from_slice(&(payload.len() as u32).to_le_bytes());
        self.0.extend_from_slice(&(end as u32).to_le_bytes());
        self.0.extend_from_slice(&[0; 4]);
        self.0.extend_from_slice(payload);
        self.0.resize(end, 0);
        self
    }
    pub fn manager(self, k: Key, roles: u8) -> Self {
        let mut p = k.to_vec();
        p.push(roles);
        self.ext(8, &p)
    }
    pub fn grouping(self, size: u64, max: u64, delegate: Key) -> Self {
        let mut p = size.to_le_bytes().to_vec();
        p.extend(max.to_le_bytes());
        p.extend(delegate);
        self.ext(6, &p)
    }
    pub fn creators(self, list: &[(Key, bool, u8)]) -> Self {
        let p = creators(list);
        self.ext(3, &p)
    }
    /// Royalties with a rule: the key of `account` (0 asset, 1 authority, 2 recipient) is `k`.
    pub fn royalties(self, bps: u64, account: u64, k: Key) -> Self {
        let mut p = bps.to_le_bytes().to_vec();
        p.extend(4u32.to_le_bytes());
        p.extend(40u32.to_le_bytes());
        p.extend(account.to_le_bytes());
        p.extend(k);
        self.ext(7, &p)
    }
}
pub fn creators(list: &[(Key, bool, u8)]) -> Vec<u8> {
    let mut p = vec![];
    for (k, v, s) in list {
        p.extend(k);
        p.push(*v as u8);
        p.push(*s);
    }
    p
}

pub static mut STACK: u64 = 1;
struct Host;
impl SyscallStubs for Host {
    fn sol_log(&self, _: &str) {}
    fn sol_get_stack_height(&self) -> u64 {
        unsafe { STACK }
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
}

/// Runs one instruction; a panic counts as a refusal, as on chain.
pub fn run(accs: &mut [&mut A], ix: &[u8]) -> bool {
    set_syscall_stubs(Box::new(Host));
    std::panic::set_hook(Box::new(|_| {}));
    let infos: Vec<AccountInfo> = accs
        .iter_mut()
        .map(|a| unsafe { std::mem::transmute::<*mut u64, AccountInfo>(a.0.as_mut_ptr()) })
        .collect();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        asset_program::processor::process_instruction(&asset_program::ID, &infos, ix).is_ok()
    }))
    .unwrap_or(false)
}

pub fn expect(c: bool, m: &str) {
    if !c {
        println!("WRONG: {m}");
        std::process::exit(1);
    }
}
