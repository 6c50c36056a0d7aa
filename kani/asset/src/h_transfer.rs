//! Transfer (instruction 7): [asset, signer, recipient, group?].
use crate::model::*;
use crate::nd;
use crate::{chk, witness};

const IX: u8 = 7;

/// Effects of a successful transfer on the asset account.
fn post<const N: usize>(asset: &Acc<N>, p: &Snap<N>, recipient: &Key) {
    let d = &asset.data;
    if keq(&p.owner(), recipient) {
        chk!(p.unchanged(asset), "[C02] a transfer to the current owner changes nothing");
    } else {
        chk!(keq(&key_at(d, OWNER), recipient), "[C02] the recipient is the owner after a transfer");
        chk!(is_zero(&key_at(d, DELEGATE)) && d[ROLES] == 0, "[C02] a transfer clears the delegate");
        chk!(p.only(asset, &[(OWNER, OWNER + 32), (DELEGATE, ROLES + 1)]), "[C02] a transfer changes only owner and delegate");
    }
}

/// Everything but royalties and the group account.
fn verdict<const N: usize>(asset: &Acc<N>, p: &Snap<N>, ok: bool, allowed: bool, rest: bool, recipient: &Key) {
    if ok {
        witness!("[C01] a transfer succeeds");
        chk!(allowed, "[C01] only the owner or a transfer delegate that signs can transfer");
        chk!(p.d[STANDARD] != SOULBOUND, "[C03] a soulbound asset is never transferred");
        chk!(p.unlocked(), "[C04] a locked asset is not transferred");
        chk!(p.live() && p.proxy_ok(), "[C05] transfer works only on initialized assets of this program, a proxied one signing");
        post(asset, p, recipient);
    } else {
        let expected = allowed && p.live() && p.proxy_ok() && p.unlocked() && p.d[STANDARD] != SOULBOUND && rest;
        chk!(!expected, "[C01] the owner and its transfer delegates can transfer");
    }
}

crate::harnesses! {
/// No extensions, no group account.
//@ props=C01,C02,C03,C04,C05 nopanic=C01
fn tr_plain() {
    let mut asset = Acc::<168>::any();
    let mut signer = Acc::<0>::any();
    let mut recipient = Acc::<0>::any();
    let mut group = absent();
    any_stack();
    assume_valid_header(&asset.data);
    let p = snap(&asset);
    let s = signer.key();
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_TRANSFER));
    let rest = is_zero(&p.group()) || keq(&p.owner(), &recipient.key());
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[IX]);
    if ok {
        chk!(rest, "[C09] an asset in a group is transferred only with its group account");
    }
    verdict(&asset, &p, ok, allowed, rest, &recipient.key());
}

/// Blob extension followed by a Manager extension.
//@ props=C01,C02,C03,C04 nopanic=C01
fn tr_manager() {
    let mut asset = Acc::<248>::any();
    let (_, n) = put_ext(&mut asset.data, LEN, X_BLOB, 8);
    let (m, _) = put_ext(&mut asset.data, n, X_MANAGER, 33);
    let mut signer = Acc::<0>::any();
    let mut recipient = Acc::<0>::any();
    let mut group = absent();
    any_stack();
    assume_valid_header(&asset.data);
    let p = snap(&asset);
    let s = signer.key();
    let owner = keq(&p.owner(), &s);
    let manager = p.managed(m, &s, R_TRANSFER);
    let allowed = signer.is_signer() && (owner || p.delegated(&s, R_TRANSFER) || manager);
    let rest = is_zero(&p.group()) || keq(&p.owner(), &recipient.key());
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[IX]);
    witness!(ok && manager && !owner, "[C01] a manager transfers");
    witness!(ok && !manager && !owner, "[C01] a delegate transfers an asset that has a manager");
    verdict(&asset, &p, ok, allowed, rest, &recipient.key());
}

/// The signer receives the asset itself: one account in two roles.
//@ props=C01,C02 nopanic=C01
fn tr_self() {
    let mut asset = Acc::<168>::any();
    let mut signer = Acc::<0>::any();
    let mut group = absent();
    any_stack();
    assume_valid_header(&asset.data);
    let p = snap(&asset);
    let s = signer.key();
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_TRANSFER));
    let rest = is_zero(&p.group()) || keq(&p.owner(), &s);
    let ok = run(&[asset.info(), signer.info(), signer.info(), group.info()], &[IX]);
    verdict(&asset, &p, ok, allowed, rest, &s);
}

/// With a group account that has no royalties.
//@ props=C01,C02,C03,C04,C09 nopanic=C01
fn tr_group() {
    let mut asset = Acc::<168>::any();
    let mut signer = Acc::<0>::any();
    let mut recipient = Acc::<0>::any();
    let mut group = Acc::<232>::some();
    put_ext(&mut group.data, LEN, X_GROUPING, 48);
    any_stack();
    assume_valid_header(&asset.data);
    assume_valid_header(&group.data);
    let p = snap(&asset);
    let g = snap(&group);
    let s = signer.key();
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_TRANSFER));
    let group_ok = is_zero(&p.group()) || keq(&p.owner(), &recipient.key())
        || (keq(&p.group(), &g.h.key) && g.live());
    let locked_group = g.live() && !g.unlocked();
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[IX]);
    if ok {
        witness!(!is_zero(&p.group()), "[C09] a grouped asset is transferred");
        chk!(group_ok, "[C09] an asset in a group is transferred only with its group account");
        chk!(!locked_group, "[C04] nothing is transferred while an account of the instruction is locked");
        chk!(g.unchanged(&group), "[C02] a transfer leaves the group account alone");
    }
    verdict(&asset, &p, ok, allowed, group_ok && !locked_group, &recipient.key());
}

/// Royalties on the asset: Or[PubkeyMatch(recipient; k1,k2), Not OwnedBy(authority; k3)].
//@ props=C09,C02 nopanic=C09 weight=20
fn tr_royal_asset() {
    let mut asset = Acc::<336>::any();
    let (c, _) = put_ext(&mut asset.data, LEN, X_ROYALTIES, 152);
    let (k1, k2, k3) = royal_or(&mut asset.data, c);
    let mut signer = any_wallet();
    let mut recipient = any_wallet();
    let mut group = absent();
    let depth = any_stack();
    assume_valid_header(&asset.data);
    let p = snap(&asset);
    let s = signer.key();
    let r = recipient.key();
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_TRANSFER));
    let wallets = depth == 1 && keq(&signer.owner(), &SYSTEM) && keq(&recipient.owner(), &SYSTEM);
    let owned = keq(&signer.owner(), &k3) && signer.len() > 0;
    let constraint = keq(&r, &k1) || keq(&r, &k2) || !owned;
    let locked = is_locked_asset(&signer.owner(), &signer.data[..signer.len()])
        || is_locked_asset(&recipient.owner(), &recipient.data[..recipient.len()]);
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[IX]);
    if ok {
        witness!(wallets && !constraint, "[C09] a wallet-to-wallet transfer skips the constraint");
        witness!(!wallets && constraint, "[C09] a transfer satisfies the constraint");
        chk!(wallets || constraint, "[C09] a transfer satisfies the royalties constraint of the asset unless it is a top-level wallet-to-wallet transfer");
        post(&asset, &p, &r);
    } else {
        let expected = allowed && p.live() && p.proxy_ok() && p.unlocked() && p.d[STANDARD] != SOULBOUND
            && !locked && (wallets || constraint);
        chk!(!expected, "[C09] a transfer that satisfies the royalties constraint is allowed");
    }
}

/// Royalties on the group: And[OwnedBy(recipient; k1), PubkeyMatch(authority; k2)].
//@ props=C09,C02 nopanic=C09 weight=20
fn tr_royal_group() {
    let mut asset = Acc::<168>::any();
    let mut signer = any_wallet();
    let mut recipient = any_wallet();
    let mut group = Acc::<368>::some();
    let (_, n) = put_ext(&mut group.data, LEN, X_GROUPING, 48);
    let (c, _) = put_ext(&mut group.data, n, X_ROYALTIES, 112);
    let (k1, k2) = royal_and(&mut group.data, c);
    let depth = any_stack();
    assume_valid_header(&asset.data);
    assume_valid_header(&group.data);
    let p = snap(&asset);
    let g = snap(&group);
    let s = signer.key();
    let r = recipient.key();
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_TRANSFER));
    let wallets = depth == 1 && keq(&signer.owner(), &SYSTEM) && keq(&recipient.owner(), &SYSTEM);
    let constraint = keq(&recipient.owner(), &k1) && recipient.len() > 0 && keq(&s, &k2);
    let locked = is_locked_asset(&signer.owner(), &signer.data[..signer.len()])
        || is_locked_asset(&recipient.owner(), &recipient.data[..recipient.len()])
        || (g.live() && !g.unlocked());
    let exempt = is_zero(&p.group()) || keq(&p.owner(), &r);
    let member = keq(&p.group(), &g.h.key) && g.live();
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[IX]);
    if ok {
        witness!(!exempt && !wallets && constraint, "[C09] a transfer satisfies the group's constraint");
        chk!(exempt || member, "[C09] an asset in a group is transferred only with its group account");
        chk!(exempt || wallets || constraint, "[C09] a transfer satisfies the royalties constraint of the group unless it is a top-level wallet-to-wallet transfer");
        post(&asset, &p, &r);
        chk!(g.unchanged(&group), "[C02] a transfer leaves the group account alone");
    } else {
        let expected = allowed && p.live() && p.proxy_ok() && p.unlocked() && p.d[STANDARD] != SOULBOUND
            && !locked && (exempt || (member && (wallets || constraint)));
        chk!(!expected, "[C09] a transfer that satisfies the group's royalties constraint is allowed");
    }
}

/// Royalties on the asset and on its group: the asset's decide.
//@ props=C09 weight=20
fn tr_royal_both() {
    let mut asset = Acc::<272>::any();
    let (_, n) = put_ext(&mut asset.data, LEN, X_BLOB, 5);
    let (c, _) = put_ext(&mut asset.data, n, X_ROYALTIES, 56);
    put32(&mut asset.data, c + 8, 4);
    put32(&mut asset.data, c + 12, 40);
    put64(&mut asset.data, c + 16, 2);
    let k = key_at(&asset.data, c + 24);
    let mut signer = any_wallet();
    let mut recipient = any_wallet();
    let mut group = Acc::<248>::some();
    let (gc, _) = put_ext(&mut group.data, LEN, X_ROYALTIES, 56);
    put32(&mut group.data, gc + 8, 4);
    put32(&mut group.data, gc + 12, 40);
    put64(&mut group.data, gc + 16, 2);
    let depth = any_stack();
    assume_valid_header(&asset.data);
    assume_valid_header(&group.data);
    let p = snap(&asset);
    let s = signer.key();
    let r = recipient.key();
    let g = snap(&group);
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_TRANSFER));
    let wallets = depth == 1 && keq(&signer.owner(), &SYSTEM) && keq(&recipient.owner(), &SYSTEM);
    let constraint = keq(&r, &k);
    let locked = is_locked_asset(&signer.owner(), &signer.data[..signer.len()])
        || is_locked_asset(&recipient.owner(), &recipient.data[..recipient.len()])
        || (g.live() && !g.unlocked());
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[IX]);
    if ok {
        chk!(wallets || constraint, "[C09] a transfer satisfies the royalties constraint of the asset unless it is a top-level wallet-to-wallet transfer");
    } else {
        let expected = allowed && p.live() && p.proxy_ok() && p.unlocked() && p.d[STANDARD] != SOULBOUND
            && !locked && (wallets || constraint);
        chk!(!expected, "[C09] royalties of the asset take precedence over those of its group");
    }
}
}

/// A wallet-like account: no data or four bytes of data.
fn any_wallet() -> Acc<4> {
    let mut a = Acc::<4>::any();
    if nd::bool() {
        a.h.data_len = 0;
    }
    a
}

/// Or[PubkeyMatch(Recipient; k1, k2), Not(OwnedBy(Authority; k3))], 152 bytes with the basis points.
fn royal_or(d: &mut [u8], c: usize) -> (Key, Key, Key) {
    put32(d, c + 8, 2);
    put32(d, c + 12, 136);
    let o = c + 16;
    put32(d, o, 4);
    put32(d, o + 4, 72);
    put64(d, o + 8, 2);
    let (k1, k2) = (key_at(d, o + 16), key_at(d, o + 48));
    let o = o + 80;
    put32(d, o, 1);
    put32(d, o + 4, 48);
    put32(d, o + 8, 3);
    put32(d, o + 12, 40);
    put64(d, o + 16, 1);
    (k1, k2, key_at(d, o + 24))
}

/// And[OwnedBy(Recipient; k1), PubkeyMatch(Authority; k2)], 112 bytes with the basis points.
fn royal_and(d: &mut [u8], c: usize) -> (Key, Key) {
    put32(d, c + 8, 0);
    put32(d, c + 12, 96);
    let o = c + 16;
    put32(d, o, 3);
    put32(d, o + 4, 40);
    put64(d, o + 8, 2);
    let k1 = key_at(d, o + 16);
    let o = o + 48;
    put32(d, o, 4);
    put32(d, o + 4, 40);
    put64(d, o + 8, 1);
    (k1, key_at(d, o + 16))
}
