//! Environment model: accounts as the runtime hands them to the program, and
//! the host-side system calls the code under test reaches.

use nitrate::program::{Account, AccountInfo};
use solana_program::pubkey::Pubkey;

use crate::nd;

pub type Key = [u8; 32];

pub const SYSTEM: Key = [0u8; 32];
pub fn program() -> Key {
    asset_program::ID.to_bytes()
}

/// Serialized account: runtime header followed by its data.
#[repr(C, align(8))]
pub struct Acc<const N: usize> {
    pub h: Account,
    pub data: [u8; N],
    /// The spare memory behind an account, where a replay that leaves the account
    /// does no harm.
    #[cfg(not(kani))]
    slack: [u8; 16384],
}

impl<const N: usize> Acc<N> {
    /// Arbitrary account: any key, owner, balance, flags and data.
    pub fn any() -> Self {
        Self::new(any_header(N), nd::bytes())
    }
    pub fn new(h: Account, data: [u8; N]) -> Self {
        Acc {
            h,
            data,
            #[cfg(not(kani))]
            slack: [0; 16384],
        }
    }
    /// Arbitrary account that is not the "absent optional account" marker: the
    /// first byte of the key is fixed (to a byte the program id does not start
    /// with) and the other 31 bytes are arbitrary.
    pub fn some() -> Self {
        let mut a = Self::any();
        let mut k = a.h.key.to_bytes();
        k[0] = 0x11;
        a.h.key = Pubkey::new_from_array(k);
        a
    }
    /// Account with `len` bytes of arbitrary data followed by zeroed spare
    /// capacity, which the account may be resized into.
    pub fn any_len(len: usize) -> Self {
        let mut a = Self::any();
        a.h.data_len = len as u64;
        let mut i = len;
        while i < N {
            a.data[i] = 0;
            i += 1;
        }
        a
    }
    pub fn info(&mut self) -> AccountInfo {
        AccountInfo {
            raw: self as *mut _ as *mut Account,
        }
    }
    pub fn key(&self) -> Key {
        self.h.key.to_bytes()
    }
    pub fn owner(&self) -> Key {
        self.h.owner.to_bytes()
    }
    pub fn is_signer(&self) -> bool {
        self.h.is_signer != 0
    }
    pub fn len(&self) -> usize {
        self.h.data_len as usize
    }
    pub fn set_key(&mut self, k: Key) {
        self.h.key = Pubkey::new_from_array(k);
    }
    pub fn set_owner(&mut self, k: Key) {
        self.h.owner = Pubkey::new_from_array(k);
    }
}

/// The account passed in place of an optional account that is not provided.
pub fn absent() -> Acc<0> {
    let mut a = Acc::<0>::any();
    a.h.key = asset_program::ID;
    a
}

/// The system program account.
pub fn system_program() -> Acc<0> {
    let mut a = Acc::<0>::any();
    a.set_key(SYSTEM);
    a
}

pub fn any_header(data_len: usize) -> Account {
    let key: Key = nd::bytes();
    let signer = nd::bool();
    // nobody can sign for the all-zero address (it is the System Program)
    nd::assume(!signer || !is_zero(&key));
    Account {
        borrow_state: 0,
        is_signer: signer as u8,
        is_writable: 1,
        executable: 0,
        original_data_len: [0; 4],
        key: Pubkey::new_from_array(key),
        owner: Pubkey::new_from_array(nd::bytes()),
        lamports: nd::u64(),
        data_len: data_len as u64,
    }
}

// ---- raw account layout (specification side, independent of the code) ------

pub const LEN: usize = 168;
pub const DISC: usize = 0;
pub const STATE: usize = 1;
pub const STANDARD: usize = 2;
pub const MUTABLE: usize = 3;
pub const OWNER: usize = 4;
pub const GROUP: usize = 36;
pub const AUTHORITY: usize = 68;
pub const DELEGATE: usize = 100;
pub const ROLES: usize = 132;
pub const NAME: usize = 133;

pub const NON_FUNGIBLE: u8 = 0;
pub const MANAGED: u8 = 1;
pub const SOULBOUND: u8 = 2;
pub const PROXIED: u8 = 3;

pub const R_TRANSFER: u8 = 1;
pub const R_LOCK: u8 = 2;
pub const R_BURN: u8 = 4;

pub const X_ATTRIBUTES: u32 = 1;
pub const X_BLOB: u32 = 2;
pub const X_CREATORS: u32 = 3;
pub const X_LINKS: u32 = 4;
pub const X_METADATA: u32 = 5;
pub const X_GROUPING: u32 = 6;
pub const X_ROYALTIES: u32 = 7;
pub const X_MANAGER: u32 = 8;
pub const X_PROXY: u32 = 9;
pub const X_PROPERTIES: u32 = 10;
pub const X_BUCKET: u32 = 11;

pub fn put32(d: &mut [u8], o: usize, v: u32) {
    let b = v.to_le_bytes();
    d[o] = b[0];
    d[o + 1] = b[1];
    d[o + 2] = b[2];
    d[o + 3] = b[3];
}
pub fn get32(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]])
}
pub fn put64(d: &mut [u8], o: usize, v: u64) {
    put32(d, o, v as u32);
    put32(d, o + 4, (v >> 32) as u32);
}
pub fn get64(d: &[u8], o: usize) -> u64 {
    get32(d, o) as u64 | (get32(d, o + 4) as u64) << 32
}
pub const fn align8(n: usize) -> usize {
    (n + 7) & !7
}
/// Writes an extension header at `o`; returns (payload offset, next offset).
pub fn put_ext(d: &mut [u8], o: usize, ty: u32, len: usize) -> (usize, usize) {
    let next = align8(o + 16 + len);
    put32(d, o, ty);
    put32(d, o + 4, len as u32);
    put32(d, o + 8, next as u32);
    put32(d, o + 12, 0);
    (o + 16, next)
}
pub fn bytes_at<const K: usize>(d: &[u8], o: usize, want: &[u8; K]) -> bool {
    let mut r = true;
    let mut k = 0;
    while k < K {
        r &= d[o + k] == want[k];
        k += 1;
    }
    r
}
pub fn ext_at(d: &[u8], o: usize, ty: u32, len: u32, boundary: u32) -> bool {
    get32(d, o) == ty && get32(d, o + 4) == len && get32(d, o + 8) == boundary
}
pub fn put_bytes<const K: usize>(d: &mut [u8], o: usize, b: &[u8; K]) {
    let mut k = 0;
    while k < K {
        d[o + k] = b[k];
        k += 1;
    }
}
/// Room behind the last extension.
pub fn zero(d: &mut [u8], from: usize, to: usize) {
    let mut i = from;
    while i < to {
        d[i] = 0;
        i += 1;
    }
}
pub fn key_at(d: &[u8], o: usize) -> Key {
    let mut k = [0u8; 32];
    let mut i = 0;
    while i < 32 {
        k[i] = d[o + i];
        i += 1;
    }
    k
}
pub fn put_key(d: &mut [u8], o: usize, k: &Key) {
    let mut i = 0;
    while i < 32 {
        d[o + i] = k[i];
        i += 1;
    }
}
pub fn keq(a: &Key, b: &Key) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < 32 {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}
pub fn is_zero(a: &Key) -> bool {
    keq(a, &[0u8; 32])
}

/// Representation invariant of an asset header: enum and flag bytes hold one of
/// their values (every instruction that writes them writes one of these).
pub fn assume_valid_header(d: &[u8]) {
    nd::assume(d[STATE] <= 1 && d[STANDARD] <= 3 && d[MUTABLE] <= 1);
}

/// Specification of "the signer holds this delegate role".
pub fn holds(delegate: &Key, roles: u8, who: &Key, role: u8) -> bool {
    !is_zero(delegate) && keq(delegate, who) && roles & role != 0
}

/// `locked` as the access gate sees it: an initialized, locked asset account.
pub fn is_locked_asset(owner: &Key, d: &[u8]) -> bool {
    keq(owner, &program()) && d.len() > 1 && d[DISC] == 1 && d[STATE] == 1
}

/// Every byte outside the excluded ranges is unchanged. Decided for all
/// positions at once: the position is a symbolic variable.
pub fn same_except(pre: &[u8], post: &[u8], skip: &[(usize, usize)]) -> bool {
    let i = nd::u16() as usize;
    nd::assume(i < pre.len());
    let mut excluded = false;
    let mut k = 0;
    while k < skip.len() {
        excluded |= i >= skip[k].0 && i < skip[k].1;
        k += 1;
    }
    excluded || pre[i] == post[i]
}

/// Runtime view of an account header (key, owner, lamports, length, flags).
#[derive(Clone, Copy)]
pub struct Head {
    pub key: Key,
    pub owner: Key,
    pub lamports: u64,
    pub len: u64,
}
pub fn head<const N: usize>(a: &Acc<N>) -> Head {
    Head {
        key: a.key(),
        owner: a.owner(),
        lamports: a.h.lamports,
        len: a.h.data_len,
    }
}
pub fn head_same<const N: usize>(a: &Acc<N>, h: &Head) -> bool {
    keq(&a.key(), &h.key)
        && keq(&a.owner(), &h.owner)
        && a.h.lamports == h.lamports
        && a.h.data_len == h.len
}

/// State of an account before the instruction.
pub struct Snap<const N: usize> {
    pub h: Head,
    pub signer: bool,
    pub d: [u8; N],
}
pub fn snap<const N: usize>(a: &Acc<N>) -> Snap<N> {
    Snap {
        h: head(a),
        signer: a.is_signer(),
        d: a.data,
    }
}
impl<const N: usize> Snap<N> {
    /// An initialized asset account of this program.
    pub fn live(&self) -> bool {
        keq(&self.h.owner, &program()) && self.d[DISC] == 1
    }
    /// The asset signs if it is proxied.
    pub fn proxy_ok(&self) -> bool {
        self.d[STANDARD] != PROXIED || self.signer
    }
    pub fn unlocked(&self) -> bool {
        self.d[STATE] != 1
    }
    pub fn owner(&self) -> Key {
        key_at(&self.d, OWNER)
    }
    pub fn authority(&self) -> Key {
        key_at(&self.d, AUTHORITY)
    }
    pub fn group(&self) -> Key {
        key_at(&self.d, GROUP)
    }
    pub fn delegate(&self) -> Key {
        key_at(&self.d, DELEGATE)
    }
    pub fn has_delegate(&self) -> bool {
        !is_zero(&self.delegate())
    }
    pub fn delegated(&self, who: &Key, role: u8) -> bool {
        holds(&self.delegate(), self.d[ROLES], who, role)
    }
    /// The delegate stored in a Manager extension with its payload at `o`.
    pub fn managed(&self, o: usize, who: &Key, role: u8) -> bool {
        holds(&key_at(&self.d, o), self.d[o + 32], who, role)
    }
    /// Nothing about the account changed.
    pub fn unchanged(&self, a: &Acc<N>) -> bool {
        head_same(a, &self.h) && same_except(&self.d, &a.data, &[])
    }
    /// Nothing but the listed data ranges changed.
    pub fn only(&self, a: &Acc<N>, ranges: &[(usize, usize)]) -> bool {
        head_same(a, &self.h) && same_except(&self.d, &a.data, ranges)
    }
}

pub fn run(accs: &[AccountInfo], ix: &[u8]) -> bool {
    asset_program::processor::process_instruction(&asset_program::ID, accs, ix).is_ok()
}

/// Instructions with arguments that the symbolic execution cannot follow through
/// the decoded `Instruction` (a union): under `kani` the arguments are handed over
/// decoded, natively (replay) the instruction is decoded from its bytes.
pub use asset_program::instruction::{AllocateInput, DataInput, ExtensionInput, Instruction, Strategy, UpdateInput};
pub use nifty_asset_types::extensions::ExtensionType;
macro_rules! decoded {
    ($name:ident, $variant:ident, $args:ty) => {
        pub fn $name(accs: &[AccountInfo], args: $args) -> bool {
            #[cfg(kani)]
            return asset_program::processor::decoded::$name(&asset_program::ID, accs, args).is_ok();
            #[cfg(not(kani))]
            return run(accs, &borsh::to_vec(&Instruction::$variant(args)).unwrap());
        }
    };
}
decoded!(allocate, Allocate, AllocateInput);
decoded!(remove, Remove, ExtensionType);
decoded!(resize, Resize, Strategy);
decoded!(update, Update, UpdateInput);
decoded!(write, Write, DataInput);

// ---- host functions -------------------------------------------------------

/// CPI depth reported by the runtime (1 = top-level instruction).
pub static mut STACK: u64 = 1;
pub fn any_stack() -> u64 {
    let s = nd::u8() as u64;
    nd::assume(s >= 1 && s <= 5);
    unsafe {
        STACK = s;
    }
    s
}

pub fn st_format(_a: core::fmt::Arguments<'_>) -> String {
    String::new()
}
pub fn st_log(_m: &str) {}
pub fn st_stack() -> u64 {
    unsafe { STACK }
}
pub fn st_memcpy(dst: *mut u8, src: *const u8, n: usize) {
    // byte by byte, so that the symbolic execution keeps track of every byte
    let mut i = 0;
    while i < n {
        unsafe { *dst.add(i) = *src.add(i) };
        i += 1;
    }
}
pub fn st_memmove(dst: *mut u8, src: *const u8, n: usize) {
    // byte by byte, in the direction that is right for overlapping ranges
    if (dst as usize) < (src as usize) {
        let mut i = 0;
        while i < n {
            unsafe { *dst.add(i) = *src.add(i) };
            i += 1;
        }
    } else {
        let mut i = n;
        while i > 0 {
            i -= 1;
            unsafe { *dst.add(i) = *src.add(i) };
        }
    }
}
/// `String::from_utf8`, for ASCII (the strings of the harnesses are).
pub fn st_utf8(v: Vec<u8>) -> Result<String, std::string::FromUtf8Error> {
    let mut i = 0;
    while i < v.len() {
        nd::assume(v[i] < 0x80);
        i += 1;
    }
    Ok(unsafe { String::from_utf8_unchecked(v) })
}
pub fn st_rent(p: *mut u8) -> u64 {
    unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
    0
}
/// `Rent::minimum_balance` for the default rent parameters, in integers (the
/// original multiplies by the f64 2.0, exactly).
pub fn st_min_balance(_r: &solana_program::rent::Rent, len: usize) -> u64 {
    (128 + len as u64) * 3480 * 2
}
pub fn rent(len: usize) -> u64 {
    (128 + len as u64) * 6960
}

#[cfg(kani)]
#[kanitool::fn_marker = "PointerOffsetHook"]
#[inline(never)]
fn pointer_offset<T: ?Sized>(_ptr: *const T) -> usize {
    loop {}
}
/// Alignment of a pointer = alignment of its offset in its allocation (the
/// allocations of the model are 8-byte aligned, as the runtime's are).
#[cfg(kani)]
pub fn st_aligned(ptr: *const (), align: usize) -> bool {
    pointer_offset(ptr) % align == 0
}

// ---- program-derived addresses ----------------------------------------------

/// The one derivation the harness knows about: (seeds, bump, program) -> key.
pub static mut PDA: ([u8; 32], u8, Key, Key) = ([0; 32], 0, [0; 32], [0; 32]);

/// Derives the address of the Proxy extension whose payload lies at `o`.
///
/// Under the solver the derivation is an uninterpreted function: its value for
/// these arguments is an arbitrary key, and for other arguments anything else.
/// Natively it is the real derivation, and the bump is moved to a valid one.
pub fn derive(d: &mut [u8], o: usize) -> Key {
    let program = key_at(d, o);
    let seeds = key_at(d, o + 32);
    let key: Key = nd::bytes();
    #[cfg(not(kani))]
    let key = {
        let _ = key;
        let mut b = d[o + 64];
        loop {
            if let Ok(k) = Pubkey::create_program_address(&[&seeds, &[b]], &Pubkey::new_from_array(program)) {
                d[o + 64] = b;
                break k.to_bytes();
            }
            b = b.wrapping_sub(1);
        }
    };
    unsafe {
        PDA = (seeds, d[o + 64], program, key);
    }
    key
}
pub fn st_pda(seeds: &[&[u8]], program: &Pubkey) -> Result<Pubkey, solana_program::pubkey::PubkeyError> {
    let (s, b, p, k) = unsafe { PDA };
    let known = seeds.len() == 2
        && seeds[0].len() == 32
        && seeds[1].len() == 1
        && keq(&key_at(seeds[0], 0), &s)
        && seeds[1][0] == b
        && keq(&program.to_bytes(), &p);
    if known {
        return Ok(Pubkey::new_from_array(k));
    }
    let other: Key = nd::bytes();
    if nd::bool() {
        Ok(Pubkey::new_from_array(other))
    } else {
        Err(solana_program::pubkey::PubkeyError::InvalidSeeds)
    }
}
