//! Create (2): [asset, authority, owner, group?, group_authority?, payer?, system_program?].
use crate::model::*;
use crate::nd;
use crate::{chk, witness};

const IX: u8 = 2;

/// Header of the created asset.
fn post(asset: &[u8], name: &[u8], standard: u8, mutable: u8, owner: &Key, authority: &Key) {
    chk!(asset[DISC] == 1 && asset[STATE] == 0, "[C12] a created asset is initialized and unlocked");
    chk!(asset[STANDARD] == standard && asset[MUTABLE] == mutable, "[C12] a created asset has the requested standard and mutability");
    chk!(keq(&key_at(asset, OWNER), owner), "[C12] a created asset belongs to the given owner");
    chk!(keq(&key_at(asset, AUTHORITY), authority), "[C12] a created asset has the given authority");
    chk!(is_zero(&key_at(asset, DELEGATE)) && asset[ROLES] == 0, "[C12] a created asset has no delegate");
    let i = nd::u8() as usize;
    nd::assume(i < 35);
    let want = if i < name.len() { name[i] } else { 0 };
    chk!(asset[NAME + i] == want, "[C12] a created asset has the given name");
}

/// A wallet that pays, with enough lamports for any account of these bounds.
pub fn payer() -> Acc<0> {
    let mut a = Acc::<0>::some();
    a.set_owner(SYSTEM);
    nd::assume(a.h.lamports >= 1_000_000_000 && a.h.lamports < 1 << 60);
    a
}
/// An address without an account.
pub fn fresh<const N: usize>() -> Acc<N> {
    let mut a = Acc::<N>::new(any_header(0), [0; N]);
    a.set_owner(SYSTEM);
    a.h.lamports = 0;
    a
}
/// The same, signing (concretely: what the code does not branch on, the
/// symbolic execution need not merge).
pub fn fresh_signer<const N: usize>() -> Acc<N> {
    let mut a = fresh::<N>();
    a.h.is_signer = 1;
    a
}
pub fn payer_signer() -> Acc<0> {
    let mut a = payer();
    a.h.is_signer = 1;
    a
}
/// A buffer: program account with a zeroed header of which only the
/// discriminator and, behind the header, the extensions are set.
pub fn buffer<const N: usize>() -> Acc<N> {
    let mut a = Acc::<N>::any();
    let mut i = 1;
    while i < LEN {
        a.data[i] = 0;
        i += 1;
    }
    nd::assume(a.data[DISC] <= 1);
    nd::assume(a.h.lamports < 1 << 60);
    a
}
fn flag() -> u8 {
    nd::bool() as u8
}
fn standard() -> u8 {
    let s = nd::u8();
    nd::assume(s <= 3);
    s
}

crate::harnesses! {
/// A new account without extensions, one harness per standard.
//@ props=C12 nopanic=C12
fn cr_new() {
    create_new(NON_FUNGIBLE, 1);
}
//@ props=C12 nopanic=C12
fn cr_new_soulbound() {
    create_new(SOULBOUND, 0);
}
//@ props=C23 nopanic=C23
fn cr_new_managed() {
    create_new(MANAGED, 1);
}
//@ props=C23 nopanic=C23
fn cr_new_proxied() {
    create_new(PROXIED, 1);
}

/// A name longer than the header holds is cut; every byte is arbitrary ASCII.
//@ props=C12 nopanic=C12 unwind=6
fn cr_name() {
    let mut asset = fresh::<168>();
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga) = (absent(), absent());
    let mut pay = payer();
    let mut sys = system_program();
    nd::assume(asset.is_signer() && pay.is_signer());
    let mut ix = [b'n'; 48];
    ix[0] = IX;
    put32(&mut ix, 1, 40);
    let c = nd::u8();
    nd::assume(c < 0x80 && c != 0);
    ix[5 + 34] = c;
    ix[5 + 35] = b'x';
    ix[45] = 0;
    ix[46] = 1;
    ix[47] = 0;
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &ix,
    );
    chk!(ok, "[C12] an asset can be created with a long name");
    post(&asset.data, &ix[5..40], 0, 1, &owner.key(), &auth.key());
}

/// An existing account without extensions: only an uninitialized buffer.
//@ props=C05,C12 nopanic=C12
fn cr_buffer() {
    create_buffer(NON_FUNGIBLE, 0);
}
//@ props=C05,C12 nopanic=C12
fn cr_buffer_soulbound() {
    create_buffer(SOULBOUND, 1);
}

/// Creators passed with the instruction.
//@ props=C12,C13,C17 nopanic=C13 weight=20
fn cr_creators() {
    let mut asset = fresh_signer::<256>();
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga) = (absent(), absent());
    let mut pay = payer_signer();
    let mut sys = system_program();
    let pp = snap(&pay);
    let mut ix = [0u8; 91];
    ix[0] = IX;
    put32(&mut ix, 1, 1);
    ix[5] = b'n';
    ix[7] = 1;
    ix[8] = 1;
    put32(&mut ix, 9, 1);
    ix[13] = X_CREATORS as u8;
    put32(&mut ix, 14, 68);
    ix[18] = 1;
    put32(&mut ix, 19, 68);
    let c: [u8; 68] = nd::bytes();
    let mut k = 0;
    while k < 68 {
        ix[23 + k] = c[k];
        k += 1;
    }
    run_creators(&mut asset, &mut auth, &mut owner, &mut g, &mut ga, &mut pay, &mut sys, &pp, ix);
}

/// Creators already in the buffer.
//@ props=C12,C13 nopanic=C13 weight=20
fn cr_buffer_creators() {
    let mut asset = buffer::<256>();
    let (o, _) = put_ext(&mut asset.data, LEN, X_CREATORS, 68);
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga, mut pay, mut sys) = (absent(), absent(), absent(), absent());
    let a = snap(&asset);
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &[IX, 1, 0, 0, 0, b'n', 0, 1, 0],
    );
    let total = a.d[o + 33] as u32 + a.d[o + 67] as u32;
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    if ok {
        witness!("[C13] an asset with creators is created");
        chk!(total == 100, "[C13] the shares of the creators of a created asset add up to 100");
        creators_post(&asset.data, &a.d, o, &auth.key(), auth.is_signer());
        post(&asset.data, b"n", 0, 1, &owner.key(), &auth.key());
        chk!(same_except(&a.d, &asset.data, &[(0, LEN), (o + 32, o + 33), (o + 66, o + 67)]), "[C13] creation changes nothing but the flags of the creators");
    } else {
        chk!(!(ready && total == 100), "[C13] creators whose shares add up to 100 are accepted");
    }
}

/// Royalties in the buffer.
//@ props=C12,C22 nopanic=C22
fn cr_royalties() {
    let mut asset = buffer::<240>();
    let (o, _) = put_ext(&mut asset.data, LEN, X_ROYALTIES, 56);
    put32(&mut asset.data, o + 8, 4);
    put32(&mut asset.data, o + 12, 40);
    put64(&mut asset.data, o + 16, 2);
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga, mut pay, mut sys) = (absent(), absent(), absent(), absent());
    let a = snap(&asset);
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &[IX, 1, 0, 0, 0, b'n', 0, 1, 0],
    );
    let bps = get64(&a.d, o);
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    if ok {
        witness!("[C22] an asset with royalties is created");
        chk!(bps <= 10000, "[C22] royalties never exceed 100 percent");
        chk!(ready, "[C12] an existing account is made an asset only as uninitialized buffer, by its signature");
        post(&asset.data, b"n", 0, 1, &owner.key(), &auth.key());
        chk!(same_except(&a.d, &asset.data, &[(0, LEN)]), "[C12] creation leaves the extension data of the buffer alone");
    } else {
        chk!(!(ready && bps <= 10000), "[C22] royalties of up to 100 percent are accepted");
    }
}

/// Grouping in the buffer.
//@ props=C12,C11 nopanic=C11
fn cr_grouping() {
    let mut asset = buffer::<232>();
    let (o, _) = put_ext(&mut asset.data, LEN, X_GROUPING, 48);
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga, mut pay, mut sys) = (absent(), absent(), absent(), absent());
    let a = snap(&asset);
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &[IX, 1, 0, 0, 0, b'n', 0, 1, 0],
    );
    let size = get64(&a.d, o);
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    if ok {
        chk!(size == 0, "[C11] a group is created empty");
        chk!(ready, "[C12] an existing account is made an asset only as uninitialized buffer, by its signature");
        chk!(same_except(&a.d, &asset.data, &[(0, LEN)]), "[C12] creation leaves the extension data of the buffer alone");
    } else {
        chk!(!(ready && size == 0), "[C11] an empty group can be created");
    }
}

/// Blob and Manager passed with the instruction: layout and the Managed rule.
//@ props=C12,C17,C23 nopanic=C12 weight=20
fn cr_managed() {
    create_managed(MANAGED);
}
//@ props=C23 nopanic=C23 weight=20
fn cr_unmanaged() {
    create_managed(NON_FUNGIBLE);
}

/// The Manager extension is not the last one of the buffer.
//@ props=C12,C23 nopanic=C23 weight=20
fn cr_manager_first() {
    manager_first(MANAGED);
}
//@ props=C23 nopanic=C23 weight=20
fn cr_unmanaged_first() {
    manager_first(SOULBOUND);
}

/// A proxied asset: the account is the address its Proxy extension derives.
//@ props=C23 nopanic=C23 weight=20
fn cr_proxied() {
    create_proxied(PROXIED);
}
//@ props=C23 nopanic=C23 weight=20
fn cr_unproxied() {
    create_proxied(SOULBOUND);
}

/// Directly into a group.
//@ props=C11,C12 nopanic=C11 weight=20
fn cr_group() {
    let mut asset = buffer::<168>();
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let mut g = Acc::<232>::some();
    let (z, _) = put_ext(&mut g.data, LEN, X_GROUPING, 48);
    let mut ga = Acc::<0>::some();
    let (mut pay, mut sys) = (absent(), absent());
    assume_valid_header(&g.data);
    nd::assume(get64(&g.data, z) < u64::MAX);
    let a = snap(&asset);
    let pg = snap(&g);
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &[IX, 1, 0, 0, 0, b'n', 0, 1, 0],
    );
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    grouped(ok, ready, &asset, &auth, &owner, &g, &pg, z, &ga.key(), ga.is_signer());
}

/// Directly into a group, on the signature of the asset's authority.
//@ props=C11,C12 nopanic=C11 weight=20
fn cr_group_auth() {
    let mut asset = buffer::<168>();
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let mut g = Acc::<232>::some();
    let (z, _) = put_ext(&mut g.data, LEN, X_GROUPING, 48);
    let mut ga = absent();
    let (mut pay, mut sys) = (absent(), absent());
    assume_valid_header(&g.data);
    nd::assume(get64(&g.data, z) < u64::MAX);
    let a = snap(&asset);
    let pg = snap(&g);
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &[IX, 1, 0, 0, 0, b'n', 0, 1, 0],
    );
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    grouped(ok, ready, &asset, &auth, &owner, &g, &pg, z, &auth.key(), auth.is_signer());
}
}

fn create_new(st: u8, mu: u8) {
    let mut asset = fresh::<168>();
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga) = (absent(), absent());
    let mut pay = payer();
    let mut sys = system_program();
    let a = snap(&asset);
    let pp = snap(&pay);
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &[IX, 3, 0, 0, 0, b'a', b'b', b'c', st, mu, 0],
    );
    let signed = a.signer && pp.signer;
    if st == MANAGED || st == PROXIED {
        chk!(!ok, "[C23] a managed asset has a Manager and a proxied asset a Proxy extension");
        return;
    }
    if ok {
        witness!("[C12] an asset is created");
        chk!(signed, "[C12] an asset is created only with the signatures of its account and of the payer");
        post(&asset.data, b"abc", st, mu, &owner.key(), &auth.key());
        chk!(asset.h.data_len == 168 && keq(&asset.owner(), &program()), "[C12] the created account belongs to the program and has the size of its contents");
        chk!(asset.h.lamports == rent(168) && pay.h.lamports == pp.h.lamports - rent(168), "[C12] the payer pays exactly the rent of the asset");
        chk!(is_zero(&key_at(&asset.data, GROUP)), "[C12] an asset created without a group has none");
    } else {
        chk!(!signed, "[C12] an asset can be created");
    }
}

fn create_buffer(st: u8, mu: u8) {
    let mut asset = buffer::<168>();
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga, mut pay, mut sys) = (absent(), absent(), absent(), absent());
    let a = snap(&asset);
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &[IX, 3, 0, 0, 0, b'a', b'b', b'c', st, mu, 0],
    );
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    if ok {
        witness!("[C12] an asset is created in a buffer");
        chk!(a.d[DISC] == 0, "[C12] an asset is never created a second time");
        chk!(a.signer, "[C12] an asset is created only with the signature of its account");
        chk!(keq(&a.h.owner, &program()), "[C05] create works only on new accounts and accounts of this program");
        post(&asset.data, b"abc", st, mu, &owner.key(), &auth.key());
        chk!(head_same(&asset, &a.h), "[C12] creating in a buffer moves no lamports");
    } else {
        chk!(!ready, "[C12] an asset can be created in a buffer");
    }
}

#[allow(clippy::too_many_arguments)]
fn grouped(ok: bool, ready: bool, asset: &Acc<168>, auth: &Acc<0>, owner: &Acc<0>, g: &Acc<232>, pg: &Snap<232>, z: usize, who: &Key, signed: bool) {
    let (size, max) = (get64(&pg.d, z), get64(&pg.d, z + 8));
    let delegate = key_at(&pg.d, z + 16);
    let allowed = signed && (keq(&pg.authority(), who) || (!is_zero(&delegate) && keq(&delegate, who)));
    let same = keq(&pg.authority(), &auth.key());
    let room = max == 0 || size < max;
    if ok {
        witness!("[C11] an asset is created into a group");
        chk!(allowed, "[C11] only the group authority or its grouping delegate, signing, creates into a group");
        chk!(same, "[C11] only assets of the group's authority join a group");
        chk!(room, "[C11] a group never exceeds its maximum size");
        chk!(pg.live(), "[C11] an asset joins only initialized groups of this program");
        chk!(keq(&key_at(&asset.data, GROUP), &pg.h.key), "[C11] the asset refers to its group");
        chk!(get64(&g.data, z) == size + 1, "[C11] adding a member increases the size by one");
        chk!(pg.only(g, &[(z, z + 8)]), "[C11] group changes only the size of the group");
        post(&asset.data, b"n", 0, 1, &owner.key(), &auth.key());
    } else {
        chk!(!(ready && allowed && same && room && pg.live()), "[C11] an asset can be created into a group");
    }
}

fn creators_post(d: &[u8], pre: &[u8], o: usize, authority: &Key, signed: bool) {
    let j = nd::bool() as usize * 34;
    let auth = keq(&key_at(pre, o + j), authority) && signed;
    chk!((d[o + j + 32] != 0) == auth, "[C13] a creator starts verified only if it is the authority and signs");
}

#[allow(clippy::too_many_arguments)]
fn run_creators(asset: &mut Acc<256>, auth: &mut Acc<0>, owner: &mut Acc<0>, g: &mut Acc<0>, ga: &mut Acc<0>, pay: &mut Acc<0>, sys: &mut Acc<0>, pp: &Snap<0>, ix: [u8; 91]) {
    let a = snap(asset);
    let ok = run(&[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()], &ix);
    let c = 23;
    let total = ix[c + 33] as u32 + ix[c + 67] as u32;
    let d = &asset.data;
    if ok {
        witness!("[C13] an asset with creators is created");
        chk!(total == 100, "[C13] the shares of the creators of a created asset add up to 100");
        chk!(get32(d, 168) == X_CREATORS && get32(d, 172) == 68 && get32(d, 176) == 256, "[C17] the extension lies behind the header");
        let i = nd::u8() as usize;
        nd::assume(i < 68 && i != 32 && i != 66);
        chk!(d[184 + i] == ix[c + i], "[C17] extension data is stored as given");
        let j = nd::bool() as usize * 34;
        let expect = keq(&key_at(&ix, c + j), &auth.key()) && auth.is_signer();
        chk!((d[184 + j + 32] != 0) == expect, "[C13] a creator starts verified only if it is the authority and signs");
        post(d, b"n", 0, 1, &owner.key(), &auth.key());
        chk!(asset.h.data_len == 256 && asset.h.lamports == rent(256) && pay.h.lamports == pp.h.lamports - rent(256),
            "[C12] the account has the size of its contents and its rent is paid by the payer");
    } else {
        chk!(!(a.signer && pp.signer && total == 100), "[C13] creators whose shares add up to 100 are accepted");
    }
}

fn create_managed(st: u8) {
    let mut asset = fresh_signer::<248>();
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga) = (absent(), absent());
    let mut pay = payer_signer();
    let mut sys = system_program();
    let pp = snap(&pay);
    let a = snap(&asset);
    let mut ix = [0u8; 69];
    ix[0] = IX;
    put32(&mut ix, 1, 1);
    ix[5] = b'n';
    ix[6] = st;
    ix[7] = 1;
    ix[8] = 1;
    put32(&mut ix, 9, 2);
    // Blob, three bytes
    ix[13] = X_BLOB as u8;
    put32(&mut ix, 14, 3);
    ix[18] = 1;
    put32(&mut ix, 19, 3);
    let b: [u8; 3] = nd::bytes();
    let b = [1, b[1], b[2]]; // content type of one byte
    ix[23] = b[0];
    ix[24] = b[1];
    ix[25] = b[2];
    // Manager
    ix[26] = X_MANAGER as u8;
    put32(&mut ix, 27, 33);
    ix[31] = 1;
    put32(&mut ix, 32, 33);
    let m: [u8; 33] = nd::bytes();
    let mut k = 0;
    while k < 33 {
        ix[36 + k] = m[k];
        k += 1;
    }
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &ix,
    );
    let d = &asset.data;
    if ok {
        chk!(a.signer && pp.signer, "[C12] an asset is created only with the signatures of its account and of the payer");
        chk!(st == MANAGED, "[C23] only managed assets have a Manager extension");
        post(d, b"n", st, 1, &owner.key(), &auth.key());
        chk!(asset.h.data_len == 248 && asset.h.lamports == rent(248) && pay.h.lamports == pp.h.lamports - rent(248),
            "[C12] the account has the size of its contents and its rent is paid by the payer");
        chk!(get32(d, 168) == X_BLOB && get32(d, 172) == 3 && get32(d, 176) == 192, "[C17] the first extension lies behind the header");
        chk!(d[184] == b[0] && d[185] == b[1] && d[186] == b[2], "[C17] extension data is stored as given");
        chk!(get32(d, 192) == X_MANAGER && get32(d, 196) == 33 && get32(d, 200) == 248, "[C17] the next extension starts at the 8-byte boundary of the previous");
        let i = nd::u8() as usize;
        nd::assume(i < 33);
        chk!(d[208 + i] == m[i], "[C17] extension data is stored as given");
    } else {
        chk!(!(a.signer && pp.signer && st == MANAGED), "[C12] a managed asset can be created");
    }
}

fn manager_first(st: u8) {
    let mut asset = buffer::<248>();
    let (_, e) = put_ext(&mut asset.data, LEN, X_MANAGER, 33);
    let (o, _) = put_ext(&mut asset.data, e, X_BLOB, 8);
    asset.data[o] = 1;
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga, mut pay, mut sys) = (absent(), absent(), absent(), absent());
    let a = snap(&asset);
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &[IX, 1, 0, 0, 0, b'n', st, 1, 0],
    );
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    if ok {
        chk!(st == MANAGED, "[C23] only managed assets have a Manager extension");
        chk!(ready, "[C12] an existing account is made an asset only as uninitialized buffer, by its signature");
        post(&asset.data, b"n", st, 1, &owner.key(), &auth.key());
        chk!(same_except(&a.d, &asset.data, &[(0, LEN)]), "[C12] creation leaves the extension data of the buffer alone");
    } else {
        chk!(!(ready && st == MANAGED), "[C23] a managed asset can be created");
    }
}

fn create_proxied(st: u8) {
    let mut asset = buffer::<288>();
    let (o, _) = put_ext(&mut asset.data, LEN, X_PROXY, 97);
    let derived = derive(&mut asset.data, o);
    if nd::bool() {
        asset.set_key(derived);
    }
    let mut auth = Acc::<0>::any();
    let mut owner = Acc::<0>::any();
    let (mut g, mut ga, mut pay, mut sys) = (absent(), absent(), absent(), absent());
    let a = snap(&asset);
    let ok = run(
        &[asset.info(), auth.info(), owner.info(), g.info(), ga.info(), pay.info(), sys.info()],
        &[IX, 1, 0, 0, 0, b'n', st, 1, 0],
    );
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    if ok {
        chk!(st == PROXIED, "[C23] only proxied assets have a Proxy extension");
        chk!(keq(&a.h.key, &derived), "[C23] a proxied asset lies at the address derived from its Proxy extension");
    } else {
        chk!(!(ready && st == PROXIED && keq(&a.h.key, &derived)), "[C23] a proxied asset can be created");
    }
}
