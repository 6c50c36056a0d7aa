//! Access rules that hold for whole families of instructions.
use crate::model::*;
use crate::{chk, witness};

/// Any account of the instruction, four bytes of data each, may be a locked asset.
fn locked(ix: &[u8]) {
    let mut a = Acc::<168>::any();
    let mut b = Acc::<4>::any();
    let mut c = Acc::<4>::some();
    let mut d = Acc::<4>::some();
    assume_valid_header(&a.data);
    // not a member of a group (membership is covered by the group harnesses)
    put_key(&mut a.data, GROUP, &[0; 32]);
    let locked = is_locked_asset(&a.owner(), &a.data)
        || is_locked_asset(&b.owner(), &b.data)
        || is_locked_asset(&c.owner(), &c.data)
        || is_locked_asset(&d.owner(), &d.data);
    let ok = run(&[a.info(), b.info(), c.info(), d.info()], ix);
    if ok {
        witness!("[C04] the instruction succeeds without a locked asset");
        chk!(!locked, "[C04] the instruction fails when any of its accounts is a locked asset");
    }
}

/// An account that is not an asset of this program, or a proxied one that does
/// not sign, and an account too short to be an asset.
fn short(ix: &[u8]) {
    let mut a = Acc::<8>::any();
    let mut b = Acc::<0>::any();
    let mut c = Acc::<0>::some();
    let mut d = Acc::<0>::some();
    let ok = run(&[a.info(), b.info(), c.info(), d.info()], ix);
    chk!(!ok, "[C05] an account that is too short to be an asset is refused");
}

crate::harnesses! {
//@ props=C04
fn ga_locked_transfer() { locked(&[7]); }
//@ props=C04
fn ga_locked_burn() { locked(&[1]); }
//@ props=C04
fn ga_locked_lock() { locked(&[5]); }
//@ props=C04
fn ga_locked_approve() { locked(&[3, 0]); }
//@ props=C04
fn ga_locked_revoke() { locked(&[6, 0]); }

//@ props=C05
fn ga_short_burn() { short(&[1]); }
//@ props=C05
fn ga_short_approve() { short(&[3, 0]); }
//@ props=C05
fn ga_short_lock() { short(&[5]); }
//@ props=C05
fn ga_short_revoke() { short(&[6, 0]); }
//@ props=C05
fn ga_short_transfer() { short(&[7]); }
//@ props=C05
fn ga_short_unlock() { short(&[8]); }
//@ props=C05
fn ga_short_unverify() { short(&[9]); }
//@ props=C05
fn ga_short_verify() { short(&[11]); }
//@ props=C05
fn ga_short_handover() { short(&[15]); }
}
