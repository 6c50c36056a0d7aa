//! Approve (3), Revoke (6), Lock (5), Unlock (8), Handover (15).
use crate::model::*;
use crate::nd;
use crate::{chk, witness};

const APPROVE: u8 = 3;
const REVOKE: u8 = 6;
const LOCK: u8 = 5;
const UNLOCK: u8 = 8;
const HANDOVER: u8 = 15;

fn role() -> u8 {
    let r = nd::u8();
    nd::assume(r <= 3);
    r
}
fn mask(role: u8) -> u8 {
    match role {
        1 => 1,
        2 => 2,
        3 => 4,
        _ => 0,
    }
}

fn approve(ix: &[u8], roles: u8) {
    let mut asset = Acc::<192>::any();
    put_ext(&mut asset.data, LEN, X_BLOB, 8);
    let mut owner = Acc::<0>::any();
    let mut delegate = Acc::<0>::any();
    assume_valid_header(&asset.data);
    let p = snap(&asset);
    let k = delegate.key();
    let allowed = owner.is_signer() && keq(&p.owner(), &owner.key());
    let same = p.has_delegate() && keq(&p.delegate(), &k);
    let ok = run(&[asset.info(), owner.info(), delegate.info()], ix);
    if ok {
        witness!(same, "[C07] roles are added to the current delegate");
        witness!(!same, "[C07] a delegate is approved");
        chk!(allowed, "[C07] only the owner, signing, approves a delegate");
        chk!(p.unlocked(), "[C04] no delegate is approved on a locked asset");
        chk!(p.live() && p.proxy_ok(), "[C05] approve works only on initialized assets of this program, a proxied one signing");
        let want = if same { p.d[ROLES] | roles } else { roles };
        chk!(keq(&key_at(&asset.data, DELEGATE), &k) && asset.data[ROLES] == want, "[C07] approve gives the delegate exactly the requested roles, added to those it had");
        chk!(p.only(&asset, &[(DELEGATE, ROLES + 1)]), "[C07] approve changes only the delegate");
    } else {
        chk!(!(allowed && p.live() && p.proxy_ok() && p.unlocked()), "[C07] the owner can approve a delegate");
    }
}

fn revoke(ix: &[u8], roles: u8, all: bool) {
    let mut asset = Acc::<192>::any();
    put_ext(&mut asset.data, LEN, X_BLOB, 8);
    let mut signer = Acc::<0>::any();
    assume_valid_header(&asset.data);
    let p = snap(&asset);
    let s = signer.key();
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || (p.has_delegate() && keq(&p.delegate(), &s)));
    let ok = run(&[asset.info(), signer.info()], ix);
    if ok {
        witness!("[C07] a delegate is revoked");
        chk!(allowed, "[C07] only the owner or the delegate, signing, revokes");
        chk!(p.unlocked(), "[C04] no delegate is revoked on a locked asset");
        chk!(p.live() && p.proxy_ok(), "[C05] revoke works only on initialized assets of this program, a proxied one signing");
        let left = p.d[ROLES] & !roles;
        let d = &asset.data;
        if all || (p.has_delegate() && left == 0) {
            chk!(is_zero(&key_at(d, DELEGATE)) && d[ROLES] == 0, "[C07] revoking the last role removes the delegate");
            chk!(p.only(&asset, &[(DELEGATE, ROLES + 1)]), "[C07] revoke changes only the delegate");
        } else if p.has_delegate() {
            chk!(d[ROLES] == left, "[C07] revoke removes exactly the named roles");
            chk!(p.only(&asset, &[(ROLES, ROLES + 1)]), "[C07] revoke changes only the roles");
        } else {
            chk!(p.unchanged(&asset), "[C07] revoke without a delegate changes nothing");
        }
    } else {
        chk!(!(allowed && p.live() && p.proxy_ok() && p.unlocked()), "[C07] the owner and the delegate can revoke");
    }
}

crate::harnesses! {
//@ props=C04,C05,C07 nopanic=C07
fn ap_all() {
    approve(&[APPROVE, 0], 7);
}
//@ props=C07 nopanic=C07
fn ap_some() {
    let (a, b) = (role(), role());
    approve(&[APPROVE, 1, 2, 0, 0, 0, a, b], mask(a) | mask(b));
}
//@ props=C07 nopanic=C07
fn ap_one() {
    let a = role();
    approve(&[APPROVE, 1, 1, 0, 0, 0, a], mask(a));
}
/// Unknown roles.
//@ props=C07
fn ap_bad() {
    let (a, b) = (nd::u8(), nd::u8());
    nd::assume(a > 3 || b > 3);
    let mut asset = Acc::<168>::any();
    let mut owner = Acc::<0>::any();
    let mut delegate = Acc::<0>::any();
    let ok = run(&[asset.info(), owner.info(), delegate.info()], &[APPROVE, 1, 2, 0, 0, 0, a, b]);
    chk!(!ok, "[C07] unknown roles are refused");
}
//@ props=C07 nopanic=C07 tier=thorough
fn ap_three() {
    let (a, b, c) = (role(), role(), role());
    approve(&[APPROVE, 1, 3, 0, 0, 0, a, b, c], mask(a) | mask(b) | mask(c));
}
//@ props=C04,C05,C07 nopanic=C07
fn rv_all() {
    revoke(&[REVOKE, 0], 0, true);
}
//@ props=C07 nopanic=C07
fn rv_some() {
    let (a, b) = (role(), role());
    revoke(&[REVOKE, 1, 2, 0, 0, 0, a, b], mask(a) | mask(b), false);
}
//@ props=C07 nopanic=C07 tier=thorough
fn rv_three() {
    let (a, b, c) = (role(), role(), role());
    revoke(&[REVOKE, 1, 3, 0, 0, 0, a, b, c], mask(a) | mask(b) | mask(c), false);
}

//@ props=C04,C05,C06 nopanic=C06
fn lk_plain() {
    lock_plain(LOCK, true);
}
//@ props=C05,C06 nopanic=C06
fn ul_plain() {
    lock_plain(UNLOCK, false);
}
//@ props=C04,C06 nopanic=C06
fn lk_manager() {
    lock_manager(LOCK, true);
}
//@ props=C06 nopanic=C06
fn ul_manager() {
    lock_manager(UNLOCK, false);
}

/// Handover of the authority.
//@ props=C05,C20 nopanic=C20
fn ho_plain() {
    let mut asset = Acc::<192>::any();
    put_ext(&mut asset.data, LEN, X_BLOB, 8);
    let mut authority = Acc::<0>::any();
    let mut new = Acc::<0>::any();
    assume_valid_header(&asset.data);
    let p = snap(&asset);
    let ok = run(&[asset.info(), authority.info(), new.info()], &[HANDOVER]);
    let allowed = authority.is_signer() && keq(&p.authority(), &authority.key());
    if ok {
        witness!("[C20] the authority is handed over");
        chk!(allowed, "[C20] only the current authority, signing, hands over");
        chk!(new.is_signer(), "[C20] the new authority has to sign");
        chk!(p.d[MUTABLE] != 0, "[C20] the authority of an immutable asset never changes");
        chk!(p.live() && p.proxy_ok(), "[C05] handover works only on initialized assets of this program, a proxied one signing");
        chk!(keq(&key_at(&asset.data, AUTHORITY), &new.key()), "[C20] the new authority is recorded");
        chk!(p.only(&asset, &[(AUTHORITY, AUTHORITY + 32)]), "[C20] handover changes only the authority");
    } else {
        chk!(!(allowed && new.is_signer() && p.d[MUTABLE] != 0 && p.live() && p.proxy_ok()), "[C20] the authority of a mutable asset can be handed over");
    }
}
}

fn lock_post<const N: usize>(asset: &Acc<N>, p: &Snap<N>, locks: bool) {
    if locks {
        chk!(p.unlocked(), "[C04] a locked asset is not locked again");
        chk!(asset.data[STATE] == 1, "[C06] lock sets the locked state");
    } else {
        chk!(asset.data[STATE] == 0, "[C06] unlock clears the locked state");
    }
    chk!(p.live() && p.proxy_ok(), "[C05] lock and unlock work only on initialized assets of this program, a proxied one signing");
    chk!(p.only(asset, &[(STATE, STATE + 1)]), "[C06] lock and unlock change only the state");
}

fn lock_plain(ix: u8, locks: bool) {
    let mut asset = Acc::<168>::any();
    let mut signer = Acc::<0>::any();
    assume_valid_header(&asset.data);
    let p = snap(&asset);
    let s = signer.key();
    let allowed = signer.is_signer()
        && if p.has_delegate() { p.delegated(&s, R_LOCK) } else { keq(&p.owner(), &s) };
    let ok = run(&[asset.info(), signer.info()], &[ix]);
    if ok {
        witness!(p.has_delegate(), "[C06] a delegate locks or unlocks");
        witness!(!p.has_delegate(), "[C06] an owner locks or unlocks");
        chk!(allowed, "[C06] only the lock delegate or, without a delegate, the owner locks and unlocks");
        lock_post(&asset, &p, locks);
    } else {
        chk!(!(allowed && p.live() && p.proxy_ok() && (!locks || p.unlocked())), "[C06] the lock delegate or, without a delegate, the owner can lock and unlock");
    }
}

fn lock_manager(ix: u8, locks: bool) {
    let mut asset = Acc::<248>::any();
    let (_, n) = put_ext(&mut asset.data, LEN, X_BLOB, 8);
    let (m, _) = put_ext(&mut asset.data, n, X_MANAGER, 33);
    let mut signer = Acc::<0>::any();
    assume_valid_header(&asset.data);
    let p = snap(&asset);
    let s = signer.key();
    let manager = p.managed(m, &s, R_LOCK);
    let allowed = signer.is_signer()
        && (manager || if p.has_delegate() { p.delegated(&s, R_LOCK) } else { keq(&p.owner(), &s) });
    let ok = run(&[asset.info(), signer.info()], &[ix]);
    if ok {
        witness!(manager, "[C06] a manager locks or unlocks");
        chk!(allowed, "[C06] only the manager, the lock delegate or, without a delegate, the owner locks and unlocks");
        lock_post(&asset, &p, locks);
    } else {
        chk!(!(allowed && p.live() && p.proxy_ok() && (!locks || p.unlocked())), "[C06] the manager, the lock delegate or, without a delegate, the owner can lock and unlock");
    }
}
