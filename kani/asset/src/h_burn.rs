//! Burn (1): [asset, signer, recipient?, group?] and Close (0): [buffer, recipient].
use crate::model::*;
use crate::nd;
use crate::{chk, witness};

const BURN: u8 = 1;
const CLOSE: u8 = 0;

/// The account no longer exists and `to` received all of its lamports.
fn closed<const N: usize, const M: usize>(a: &Acc<N>, p: &Snap<N>, to: &Acc<M>, q: &Snap<M>) -> bool {
    a.h.data_len == 0
        && a.h.lamports == 0
        && keq(&a.owner(), &SYSTEM)
        && keq(&a.key(), &p.h.key)
        && to.h.lamports as u128 == q.h.lamports as u128 + p.h.lamports as u128
        && keq(&to.owner(), &q.h.owner)
        && to.h.data_len == q.h.len
}
fn no_overflow(a: u64, b: u64) {
    nd::assume(a.checked_add(b).is_some());
}

crate::harnesses! {
/// No extensions; recipient given, no group account.
//@ props=C04,C05,C08 nopanic=C08
fn bu_plain() {
    let mut asset = Acc::<168>::any();
    let mut signer = Acc::<0>::any();
    let mut recipient = Acc::<0>::some();
    let mut group = absent();
    assume_valid_header(&asset.data);
    no_overflow(asset.h.lamports, recipient.h.lamports);
    let p = snap(&asset);
    let (ps, pr) = (snap(&signer), snap(&recipient));
    let s = signer.key();
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_BURN));
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[BURN]);
    if ok {
        witness!("[C08] a burn succeeds");
        chk!(allowed, "[C08] only the owner or a burn delegate that signs can burn");
        chk!(p.unlocked(), "[C04] a locked asset is not burned");
        chk!(p.live() && p.proxy_ok(), "[C05] burn works only on initialized assets of this program, a proxied one signing");
        chk!(is_zero(&p.group()), "[C08] a member of a group is burned only with its group account");
        chk!(closed(&asset, &p, &recipient, &pr), "[C08] a burned asset is gone and the recipient has its lamports");
        chk!(ps.unchanged(&signer), "[C08] burn leaves the signer alone");
    } else {
        let expected = allowed && p.live() && p.proxy_ok() && p.unlocked() && is_zero(&p.group());
        chk!(!expected, "[C08] the owner and its burn delegates can burn");
    }
}

/// No recipient: the signer receives the lamports.
//@ props=C08 nopanic=C08
fn bu_signer() {
    let mut asset = Acc::<168>::any();
    let mut signer = Acc::<0>::any();
    let mut recipient = absent();
    let mut group = absent();
    assume_valid_header(&asset.data);
    no_overflow(asset.h.lamports, signer.h.lamports);
    let p = snap(&asset);
    let (ps, pr) = (snap(&signer), snap(&recipient));
    let s = signer.key();
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_BURN));
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[BURN]);
    if ok {
        witness!("[C08] a burn without recipient succeeds");
        chk!(allowed, "[C08] only the owner or a burn delegate that signs can burn");
        chk!(closed(&asset, &p, &signer, &ps), "[C08] without a recipient the signer has the lamports");
        chk!(pr.unchanged(&recipient), "[C08] burn leaves other accounts alone");
    } else {
        let expected = allowed && p.live() && p.proxy_ok() && p.unlocked() && is_zero(&p.group());
        chk!(!expected, "[C08] the owner and its burn delegates can burn");
    }
}

/// Manager extension behind another extension.
//@ props=C04,C08 nopanic=C08
fn bu_manager() {
    let mut asset = Acc::<248>::any();
    let (_, n) = put_ext(&mut asset.data, LEN, X_BLOB, 8);
    let (m, _) = put_ext(&mut asset.data, n, X_MANAGER, 33);
    let mut signer = Acc::<0>::any();
    let mut recipient = Acc::<0>::some();
    let mut group = absent();
    assume_valid_header(&asset.data);
    no_overflow(asset.h.lamports, recipient.h.lamports);
    let p = snap(&asset);
    let pr = snap(&recipient);
    let s = signer.key();
    let allowed = signer.is_signer()
        && (keq(&p.owner(), &s) || p.delegated(&s, R_BURN) || p.managed(m, &s, R_BURN));
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[BURN]);
    if ok {
        chk!(allowed, "[C08] only the owner or a burn delegate that signs can burn");
        chk!(p.unlocked(), "[C04] a locked asset is not burned");
        chk!(closed(&asset, &p, &recipient, &pr), "[C08] a burned asset is gone and the recipient has its lamports");
    } else {
        let expected = allowed && p.live() && p.proxy_ok() && p.unlocked() && is_zero(&p.group());
        chk!(!expected, "[C08] the owner, the manager and burn delegates can burn");
    }
}

/// The asset is a group itself (Grouping extension behind another extension).
//@ props=C08,C11 nopanic=C08
fn bu_is_group() {
    let mut asset = Acc::<256>::any();
    let (_, n) = put_ext(&mut asset.data, LEN, X_BLOB, 8);
    let (g, _) = put_ext(&mut asset.data, n, X_GROUPING, 48);
    let mut signer = Acc::<0>::any();
    let mut recipient = Acc::<0>::some();
    let mut group = absent();
    assume_valid_header(&asset.data);
    no_overflow(asset.h.lamports, recipient.h.lamports);
    let p = snap(&asset);
    let pr = snap(&recipient);
    let s = signer.key();
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_BURN));
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[BURN]);
    if ok {
        chk!(get64(&p.d, g) == 0, "[C11] a group with members is not burned");
        chk!(allowed, "[C08] only the owner or a burn delegate that signs can burn");
        chk!(get64(&p.d, g) == 0, "[C08] a group with members is not burned");
        chk!(closed(&asset, &p, &recipient, &pr), "[C08] a burned asset is gone and the recipient has its lamports");
    } else {
        let expected = allowed && p.live() && p.proxy_ok() && p.unlocked() && is_zero(&p.group()) && get64(&p.d, g) == 0;
        chk!(!expected, "[C08] an empty group can be burned");
    }
}

/// The asset is a member of a group; the group account is given.
//@ props=C04,C08,C11 nopanic=C08
fn bu_member() {
    let mut asset = Acc::<168>::any();
    let mut signer = Acc::<0>::any();
    let mut recipient = Acc::<0>::some();
    let mut group = Acc::<256>::some();
    let (_, n) = put_ext(&mut group.data, LEN, X_BLOB, 3);
    let (z, _) = put_ext(&mut group.data, n, X_GROUPING, 48);
    assume_valid_header(&asset.data);
    assume_valid_header(&group.data);
    no_overflow(asset.h.lamports, recipient.h.lamports);
    let p = snap(&asset);
    let (pr, pg) = (snap(&recipient), snap(&group));
    // whatever carries a key an asset refers to as its group is an asset of this program
    nd::assume(!keq(&p.group(), &pg.h.key) || pg.live());
    let s = signer.key();
    let member = !is_zero(&p.group());
    let allowed = signer.is_signer() && (keq(&p.owner(), &s) || p.delegated(&s, R_BURN));
    let size = get64(&pg.d, z);
    let ok = run(&[asset.info(), signer.info(), recipient.info(), group.info()], &[BURN]);
    if ok {
        witness!(member, "[C11] a member of a group is burned");
        chk!(allowed, "[C08] only the owner or a burn delegate that signs can burn");
        chk!(closed(&asset, &p, &recipient, &pr), "[C08] a burned asset is gone and the recipient has its lamports");
        chk!(!(pg.live() && !pg.unlocked()), "[C04] nothing is burned while an account of the instruction is locked");
        if member {
            chk!(keq(&p.group(), &pg.h.key), "[C08] a member of a group is burned only with its group account");
            chk!(size >= 1 && get64(&group.data, z) == size.wrapping_sub(1), "[C11] burning a member decreases the size of its group by one");
            chk!(pg.only(&group, &[(z, z + 8)]), "[C11] burn changes only the size of the group");
        } else {
            chk!(pg.unchanged(&group), "[C11] burning an asset without a group leaves other groups alone");
        }
    } else {
        let expected = allowed && p.live() && p.proxy_ok() && p.unlocked()
            && !(pg.live() && !pg.unlocked())
            && (!member || (keq(&p.group(), &pg.h.key) && size >= 1));
        chk!(!expected, "[C08] a member of a group can be burned with its group account");
    }
}

/// Close an asset-sized buffer.
//@ props=C05,C15 nopanic=C15
fn cl_buffer() {
    let mut buffer = Acc::<176>::any();
    let mut recipient = Acc::<0>::any();
    no_overflow(buffer.h.lamports, recipient.h.lamports);
    nd::assume(buffer.data[DISC] <= 1);
    let p = snap(&buffer);
    let pr = snap(&recipient);
    let ok = run(&[buffer.info(), recipient.info()], &[CLOSE]);
    let expected = p.signer && keq(&p.h.owner, &program()) && p.d[DISC] == 0;
    if ok {
        witness!("[C15] a buffer is closed");
        chk!(keq(&p.h.owner, &program()), "[C05] close works only on accounts of this program");
        chk!(expected, "[C15] only an uninitialized buffer that signs is closed");
        chk!(closed(&buffer, &p, &recipient, &pr), "[C15] a closed buffer is gone and the recipient has its lamports");
    } else {
        chk!(!expected, "[C15] an uninitialized buffer that signs can be closed");
    }
}

/// Close a small and an empty buffer.
//@ props=C15 nopanic=C15
fn cl_small() {
    let mut buffer = Acc::<3>::any();
    if nd::bool() {
        buffer.h.data_len = 0;
    }
    let mut recipient = Acc::<0>::any();
    no_overflow(buffer.h.lamports, recipient.h.lamports);
    nd::assume(buffer.data[DISC] <= 1);
    let p = snap(&buffer);
    let pr = snap(&recipient);
    let ok = run(&[buffer.info(), recipient.info()], &[CLOSE]);
    let expected = p.signer && keq(&p.h.owner, &program()) && (p.h.len == 0 || p.d[DISC] == 0);
    if ok {
        chk!(expected, "[C15] only an uninitialized buffer that signs is closed");
        chk!(closed(&buffer, &p, &recipient, &pr), "[C15] a closed buffer is gone and the recipient has its lamports");
    } else {
        chk!(!expected, "[C15] an uninitialized buffer that signs can be closed");
    }
}
}
