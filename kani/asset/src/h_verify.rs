//! Verify (11), Unverify (9): [asset, creator].
use crate::model::*;
use crate::nd;
use crate::{chk, witness};

const VERIFY: u8 = 11;
const UNVERIFY: u8 = 9;

fn verify<const N: usize>(mut asset: Acc<N>, c: usize, n: usize, ix: u8, value: u8) {
    let mut creator = Acc::<0>::any();
    assume_valid_header(&asset.data);
    let mut i = 0;
    while i < n {
        nd::assume(asset.data[c + 34 * i + 32] <= 1);
        i += 1;
    }
    let p = snap(&asset);
    let k = creator.key();
    let mut listed = false;
    let mut i = 0;
    while i < n {
        listed |= keq(&key_at(&p.d, c + 34 * i), &k);
        i += 1;
    }
    let ok = run(&[asset.info(), creator.info()], &[ix]);
    if ok {
        witness!("[C14] a creator is verified or unverified");
        chk!(creator.is_signer(), "[C14] a creator is verified and unverified only with its own signature");
        chk!(listed, "[C14] only listed creators verify and unverify");
        chk!(p.live() && p.proxy_ok(), "[C05] verify and unverify work only on initialized assets of this program, a proxied one signing");
        // one arbitrary creator
        let j = nd::u8() as usize;
        nd::assume(j < n);
        let o = c + 34 * j + 32;
        if keq(&key_at(&p.d, c + 34 * j), &k) {
            chk!(asset.data[o] == value, "[C14] the verified flag of the creator is set by verify and cleared by unverify");
        } else {
            chk!(asset.data[o] == p.d[o], "[C14] the verified flags of other creators do not change");
        }
        match n {
            1 => chk!(p.only(&asset, &[(c + 32, c + 33)]), "[C14] nothing but the flag changes"),
            2 => chk!(p.only(&asset, &[(c + 32, c + 33), (c + 66, c + 67)]), "[C14] nothing but the flags changes"),
            _ => chk!(p.only(&asset, &[(c + 32, c + 33), (c + 66, c + 67), (c + 100, c + 101)]), "[C14] nothing but the flags changes"),
        }
    } else {
        chk!(!(creator.is_signer() && listed && p.live() && p.proxy_ok()), "[C14] a listed creator can verify and unverify");
    }
}

fn three() -> (Acc<312>, usize) {
    let mut a = Acc::<312>::any();
    let (_, n) = put_ext(&mut a.data, LEN, X_BLOB, 8);
    let (c, _) = put_ext(&mut a.data, n, X_CREATORS, 102);
    (a, c)
}
fn one() -> (Acc<224>, usize) {
    let mut a = Acc::<224>::any();
    let (c, _) = put_ext(&mut a.data, LEN, X_CREATORS, 34);
    (a, c)
}

crate::harnesses! {
//@ props=C05,C14 nopanic=C14
fn ve_three() {
    let (a, c) = three();
    verify(a, c, 3, VERIFY, 1);
}
//@ props=C05,C14 nopanic=C14
fn uv_three() {
    let (a, c) = three();
    verify(a, c, 3, UNVERIFY, 0);
}
//@ props=C14 nopanic=C14
fn ve_one() {
    let (a, c) = one();
    verify(a, c, 1, VERIFY, 1);
}
//@ props=C14 nopanic=C14
fn uv_one() {
    let (a, c) = one();
    verify(a, c, 1, UNVERIFY, 0);
}
}
