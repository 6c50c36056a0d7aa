//! Group (13), Ungroup (14): [asset, group, authority].
use crate::model::*;
use crate::nd;
use crate::{chk, witness};

const GROUP_IX: u8 = 13;
const UNGROUP_IX: u8 = 14;

/// `z` is the offset of the Grouping payload, `len` its length (48, or 16 for
/// groups created before delegates existed).
fn group<const N: usize>(group: &mut Acc<N>, z: usize, len: usize) {
    let mut asset = Acc::<168>::any();
    let mut auth = Acc::<0>::any();
    assume_valid_header(&asset.data);
    assume_valid_header(&group.data);
    nd::assume(!is_zero(&group.key()));
    let p = snap(&asset);
    let g = snap(group);
    let s = auth.key();
    let (size, max) = (get64(&g.d, z), get64(&g.d, z + 8));
    nd::assume(size < u64::MAX);
    let delegate = if len >= 48 { key_at(&g.d, z + 16) } else { [0; 32] };
    let allowed = auth.is_signer()
        && (keq(&g.authority(), &s) || (!is_zero(&delegate) && keq(&delegate, &s)));
    let same_authority = keq(&g.authority(), &p.authority());
    let room = max == 0 || size < max;
    let free = is_zero(&p.group());
    let ok = run(&[asset.info(), group.info(), auth.info()], &[GROUP_IX]);
    if ok {
        witness!(len < 48 || keq(&delegate, &s), "[C11] an asset is added to a group");
        chk!(allowed, "[C11] only the group authority or its grouping delegate, signing, adds to a group");
        chk!(same_authority, "[C11] only assets of the group's authority join a group");
        chk!(room, "[C11] a group never exceeds its maximum size");
        chk!(free, "[C11] an asset is in at most one group");
        chk!(p.live() && p.proxy_ok() && g.live(), "[C05] group works only on initialized assets of this program, a proxied one signing");
        chk!(keq(&key_at(&asset.data, GROUP), &g.h.key), "[C11] the asset refers to its group");
        chk!(get64(&group.data, z) == size + 1, "[C11] adding a member increases the size by one");
        chk!(p.only(&asset, &[(GROUP, GROUP + 32)]), "[C11] group changes only the group of the asset");
        chk!(g.only(group, &[(z, z + 8)]), "[C11] group changes only the size of the group");
    } else {
        chk!(!(allowed && same_authority && room && free && p.live() && p.proxy_ok() && g.live()), "[C11] the group authority and its delegate can add an asset");
    }
}

fn ungroup<const N: usize>(group: &mut Acc<N>, z: usize, len: usize) {
    let mut asset = Acc::<168>::any();
    let mut auth = Acc::<0>::any();
    assume_valid_header(&asset.data);
    assume_valid_header(&group.data);
    nd::assume(!is_zero(&group.key()));
    let p = snap(&asset);
    let g = snap(group);
    let s = auth.key();
    let size = get64(&g.d, z);
    // the size of a group counts the assets that refer to it
    nd::assume(!keq(&p.group(), &g.h.key) || size >= 1);
    let delegate = if len >= 48 { key_at(&g.d, z + 16) } else { [0; 32] };
    let allowed = auth.is_signer()
        && (keq(&g.authority(), &s) || (!is_zero(&delegate) && keq(&delegate, &s)));
    let member = keq(&p.group(), &g.h.key);
    let ok = run(&[asset.info(), group.info(), auth.info()], &[UNGROUP_IX]);
    if ok {
        witness!(len < 48 || keq(&delegate, &s), "[C11] an asset is removed from a group");
        chk!(allowed, "[C11] only the group authority or its grouping delegate, signing, removes from a group");
        chk!(member, "[C11] only members are removed from a group");
        chk!(p.live() && p.proxy_ok() && g.live(), "[C05] ungroup works only on initialized assets of this program, a proxied one signing");
        chk!(is_zero(&key_at(&asset.data, GROUP)), "[C11] the asset no longer refers to the group");
        chk!(get64(&group.data, z) == size - 1, "[C11] removing a member decreases the size by one");
        chk!(p.only(&asset, &[(GROUP, GROUP + 32)]), "[C11] ungroup changes only the group of the asset");
        chk!(g.only(group, &[(z, z + 8)]), "[C11] ungroup changes only the size of the group");
    } else {
        chk!(!(allowed && member && p.live() && p.proxy_ok() && g.live()), "[C11] the group authority and its delegate can remove a member");
    }
}

crate::harnesses! {
/// Grouping extension behind another one.
//@ props=C05,C11 nopanic=C11
fn gr_full() {
    let mut g = Acc::<256>::any();
    let (_, n) = put_ext(&mut g.data, LEN, X_BLOB, 3);
    let (z, _) = put_ext(&mut g.data, n, X_GROUPING, 48);
    group(&mut g, z, 48);
}
/// Grouping extension of the old, delegate-less format.
//@ props=C11 nopanic=C11
fn gr_legacy() {
    let mut g = Acc::<200>::any();
    let (z, _) = put_ext(&mut g.data, LEN, X_GROUPING, 16);
    group(&mut g, z, 16);
}
//@ props=C05,C11 nopanic=C11
fn ug_full() {
    let mut g = Acc::<256>::any();
    let (_, n) = put_ext(&mut g.data, LEN, X_BLOB, 3);
    let (z, _) = put_ext(&mut g.data, n, X_GROUPING, 48);
    ungroup(&mut g, z, 48);
}
//@ props=C11 nopanic=C11
fn ug_legacy() {
    let mut g = Acc::<200>::any();
    let (z, _) = put_ext(&mut g.data, LEN, X_GROUPING, 16);
    ungroup(&mut g, z, 16);
}
/// An asset without the Grouping extension is not a group.
//@ props=C11
fn gr_none() {
    let mut asset = Acc::<168>::any();
    let mut g = Acc::<192>::any();
    put_ext(&mut g.data, LEN, X_BLOB, 8);
    let mut auth = Acc::<0>::any();
    assume_valid_header(&asset.data);
    assume_valid_header(&g.data);
    let ok = run(&[asset.info(), g.info(), auth.info()], &[GROUP_IX]);
    chk!(!ok, "[C11] an asset joins only assets that are groups");
}
/// An asset does not join itself.
//@ props=C11
fn gr_itself() {
    let mut g = Acc::<232>::any();
    put_ext(&mut g.data, LEN, X_GROUPING, 48);
    let mut auth = Acc::<0>::any();
    assume_valid_header(&g.data);
    let ok = run(&[g.info(), g.info(), auth.info()], &[GROUP_IX]);
    chk!(!ok, "[C11] an asset is not a member of itself");
}
}
