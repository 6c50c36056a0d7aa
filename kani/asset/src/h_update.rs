//! Update (10): [asset, authority, buffer?, group?, payer?, system_program?].
use crate::h_create::payer_signer;
use crate::model::*;
use crate::nd;
use crate::{chk, witness};

fn ext_in<const K: usize>(ty: ExtensionType, data: &[u8; K]) -> UpdateInput {
    UpdateInput {
        name: None,
        mutable: None,
        extension: Some(ExtensionInput {
            extension_type: ty,
            length: K as u32,
            data: Some(data.to_vec()),
        }),
    }
}
/// Neither name, nor mutable, nor extension.
fn nothing() -> UpdateInput {
    UpdateInput {
        name: None,
        mutable: None,
        extension: None,
    }
}
/// The authority may change the asset.
fn may<const N: usize>(p: &Snap<N>, authority: &Acc<0>) -> bool {
    authority.is_signer() && p.live() && p.proxy_ok() && keq(&p.authority(), &authority.key()) && p.d[MUTABLE] != 0
}

/// The blob between the attributes (5 bytes) and the links (9 bytes) goes from
/// `old` to `K` bytes. `N` is the larger length of the account.
fn blob<const N: usize, const K: usize>(old: usize) {
    let o = 192;
    let n0 = align8(o + 16 + old);
    let n1 = align8(o + 16 + K);
    let len0 = n0 + 32;
    let len1 = n1 + 32;
    let mut asset = Acc::<N>::any_len(len0);
    asset.h.lamports = rent(len0);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 5);
    put_ext(&mut asset.data, o, X_BLOB, old);
    put_ext(&mut asset.data, n0, X_LINKS, 9);
    asset.data[o + 16] = 1;
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut none = absent();
    let mut none2 = absent();
    let mut pay = payer_signer();
    let mut sys = system_program();
    let p = snap(&asset);
    let pp = snap(&pay);
    let mut b: [u8; K] = nd::bytes();
    b[0] = 1;
    let ok = update(
        &[asset.info(), authority.info(), none.info(), none2.info(), pay.info(), sys.info()],
        ext_in(ExtensionType::Blob, &b),
    );
    let may = may(&p, &authority);
    chk!(ok == may, "[C16] an extension is updated if and only if the authority signs and the asset is mutable");
    if ok {
        witness!("[C16] an extension is updated");
        chk!(p.live() && p.proxy_ok(), "[C05] update works only on initialized assets of this program, a proxied one signing");
        chk!(asset.h.data_len == len1 as u64, "[C17] the account ends where its last extension ends");
        chk!(ext_at(&asset.data, o, X_BLOB, K as u32, n1 as u32), "[C17] the updated extension has its new length and boundary");
        chk!(bytes_at(&asset.data, o + 16, &b), "[C16] the extension has the new data");
        chk!(ext_at(&asset.data, n1, X_LINKS, 9, len1 as u32), "[C17] the extensions behind follow the updated one");
        let i = nd::u8() as usize;
        nd::assume(i < 9);
        chk!(asset.data[n1 + 16 + i] == p.d[n0 + 16 + i], "[C17] updating one extension leaves the data of those behind alone");
        let i = nd::u8() as usize;
        nd::assume(i < LEN + 21);
        chk!(asset.data[i] == p.d[i], "[C16] updating an extension leaves everything in front of it alone");
        chk!(
            asset.h.lamports == rent(len1) && pay.h.lamports == pp.h.lamports + rent(len0) - rent(len1),
            "[C16] the payer pays and gets back exactly the rent of the change"
        );
    }
}

/// An asset with creators (two of them) behind nothing.
fn creators() -> (Acc<256>, usize) {
    let mut asset = Acc::<256>::any();
    asset.h.lamports = rent(256);
    let (o, _) = put_ext(&mut asset.data, LEN, X_CREATORS, 68);
    assume_valid_header(&asset.data);
    nd::assume(asset.data[o + 32] <= 1 && asset.data[o + 66] <= 1);
    (asset, o)
}
/// A verified creator whose address is `k`.
fn verified(d: &[u8], o: usize, k: &Key) -> bool {
    keq(&key_at(d, o), k) && d[o + 32] != 0 || keq(&key_at(d, o + 34), k) && d[o + 66] != 0
}
fn creators_after(p: &Snap<256>, asset: &Acc<256>, o: usize, authority: &Acc<0>) {
    chk!(
        asset.data[o + 33] as u32 + asset.data[o + 67] as u32 == 100,
        "[C13] after an update the shares add up to 100"
    );
    let who = nd::u8() as usize;
    nd::assume(who < 2);
    let n = o + 34 * who;
    let k = key_at(&asset.data, n);
    if asset.data[n + 32] != 0 {
        chk!(
            verified(&p.d, o, &k) || keq(&k, &authority.key()) && authority.is_signer(),
            "[C13] an update verifies nobody but the signing authority"
        );
    }
    let k = key_at(&p.d, n);
    if p.d[n + 32] != 0 {
        chk!(verified(&asset.data, o, &k), "[C13] an update neither drops nor unverifies a verified creator");
    }
}

/// Updates the extension with `b`, passed as argument or (`VIA`) in a buffer of
/// `B` bytes. Returns whether it succeeded, and whether the buffer was one.
fn swap<const N: usize, const K: usize, const B: usize>(asset: &mut Acc<N>, authority: &mut Acc<0>, ty: ExtensionType, x: u32, b: &[u8; K], via: bool) -> (bool, bool) {
    let mut none = absent();
    let mut none2 = absent();
    let mut pay = payer_signer();
    let mut sys = system_program();
    if via {
        let mut buf = Acc::<B>::some();
        zero(&mut buf.data, 1, LEN);
        nd::assume(buf.data[DISC] <= 1);
        put_ext(&mut buf.data, LEN, x, K);
        put_bytes(&mut buf.data, LEN + 16, b);
        let s = snap(&buf);
        let ok = update(&[asset.info(), authority.info(), buf.info(), none2.info(), pay.info(), sys.info()], nothing());
        let is_buffer = keq(&s.h.owner, &program()) && s.d[DISC] == 0;
        if ok {
            chk!(is_buffer, "[C16] extension data comes only from a buffer of this program");
            let i = nd::u16() as usize;
            nd::assume(i < LEN + 16);
            chk!(buf.data[i] == s.d[i], "[C15] an update leaves the header and the layout of the buffer alone");
        }
        (ok, is_buffer)
    } else {
        (update(&[asset.info(), authority.info(), none.info(), none2.info(), pay.info(), sys.info()], ext_in(ty, b)), true)
    }
}
fn creators_update(via: bool) {
    let (mut asset, o) = creators();
    let mut authority = Acc::<0>::any();
    let p = snap(&asset);
    let b: [u8; 68] = nd::bytes();
    nd::assume(b[32] <= 1 && b[66] <= 1);
    let (ok, buffer) = swap::<256, 68, 256>(&mut asset, &mut authority, ExtensionType::Creators, X_CREATORS, &b, via);
    if ok {
        witness!("[C13] creators are updated");
        creators_after(&p, &asset, o, &authority);
        chk!(may(&p, &authority), "[C16] an extension is updated only if the authority signs and the asset is mutable");
        let i = nd::u8() as usize;
        nd::assume(i < 68 && i != 32 && i != 66);
        chk!(asset.data[o + i] == b[i], "[C13] the creators are those of the update");
    } else {
        chk!(p.unchanged(&asset), "[C13] a refused update leaves the creators alone");
        let same = keq(&key_at(&p.d, o), &key_at(&b, 0)) && keq(&key_at(&p.d, o + 34), &key_at(&b, 34));
        let distinct = !keq(&key_at(&b, 0), &key_at(&b, 34));
        chk!(!(buffer && may(&p, &authority) && same && distinct && b[33] as u32 + b[67] as u32 == 100), "[C13] the shares of creators can be changed");
    }
}
fn royalties_update(via: bool) {
    let mut asset = Acc::<240>::any();
    asset.h.lamports = rent(240);
    let (o, _) = put_ext(&mut asset.data, LEN, X_ROYALTIES, 56);
    let mut b: [u8; 56] = nd::bytes();
    // a PubkeyMatch of one key, on both sides
    put32(&mut asset.data, o + 8, 4);
    put32(&mut asset.data, o + 12, 40);
    put64(&mut asset.data, o + 16, 2);
    put32(&mut b, 8, 4);
    put32(&mut b, 12, 40);
    put64(&mut b, 16, 2);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let p = snap(&asset);
    let (ok, buffer) = swap::<240, 56, 240>(&mut asset, &mut authority, ExtensionType::Royalties, X_ROYALTIES, &b, via);
    let bps = get64(&b, 0);
    if ok {
        witness!("[C22] royalties are updated");
        chk!(bps <= 10000, "[C22] royalties never exceed 100 percent");
        chk!(may(&p, &authority), "[C16] an extension is updated only if the authority signs and the asset is mutable");
        let i = nd::u8() as usize;
        nd::assume(i < 56);
        chk!(asset.data[o + i] == b[i], "[C16] the extension has the new data");
        chk!(p.only(&asset, &[(o, o + 56)]), "[C16] nothing but the data of the extension changes");
    } else {
        chk!(!(buffer && may(&p, &authority) && bps <= 10000), "[C22] royalties of up to 100 percent are accepted");
    }
}
fn grouping_update(via: bool) {
    let mut asset = Acc::<232>::any();
    asset.h.lamports = rent(232);
    let (o, _) = put_ext(&mut asset.data, LEN, X_GROUPING, 48);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let p = snap(&asset);
    let b: [u8; 48] = nd::bytes();
    let (ok, buffer) = swap::<232, 48, 232>(&mut asset, &mut authority, ExtensionType::Grouping, X_GROUPING, &b, via);
    let size = get64(&p.d, o);
    let max = get64(&b, 8);
    let fits = max == 0 || max >= size;
    if ok {
        witness!("[C11] a group is updated");
        chk!(get64(&asset.data, o) == size, "[C11] an update of a group keeps its size");
        chk!(fits, "[C11] the maximum size of a group never falls below its size");
        chk!(may(&p, &authority), "[C16] an extension is updated only if the authority signs and the asset is mutable");
        let i = nd::u8() as usize;
        nd::assume(i >= 8 && i < 48);
        chk!(asset.data[o + i] == b[i], "[C16] the extension has the new data");
        chk!(p.only(&asset, &[(o, o + 48)]), "[C16] nothing but the data of the extension changes");
    } else {
        chk!(!(buffer && may(&p, &authority) && fits), "[C11] the maximum size and the delegate of a group can be changed");
    }
}
/// An update of the extension with length 0 and no data.
fn without_data<const N: usize>(asset: &mut Acc<N>, ty: ExtensionType) -> bool {
    let mut authority = Acc::<0>::any();
    let mut none = absent();
    let mut none2 = absent();
    let mut pay = payer_signer();
    let mut sys = system_program();
    let mut args = nothing();
    args.extension = Some(ExtensionInput { extension_type: ty, length: 0, data: None });
    update(&[asset.info(), authority.info(), none.info(), none2.info(), pay.info(), sys.info()], args)
}
/// A new extension of a type that only creation adds.
fn never_new<const K: usize>(ty: ExtensionType, x: u32, via: bool) {
    let mut asset = Acc::<304>::any_len(192);
    asset.h.lamports = rent(192);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 5);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let b: [u8; K] = nd::bytes();
    let (ok, _) = swap::<304, K, 288>(&mut asset, &mut authority, ty, x, &b, via);
    chk!(!ok, "[C23] only creation adds a manager or a proxy extension");
}

crate::harnesses! {
/// Name and mutability.
//@ props=C16,C05 nopanic=C16
fn up_name() {
    let mut asset = Acc::<192>::any();
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 5);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut none = [absent(), absent(), absent(), absent()];
    let p = snap(&asset);
    let b: [u8; 3] = nd::bytes();
    nd::assume(b[0] < 128 && b[1] < 128 && b[2] < 128 && b[0] != 0 && b[1] != 0 && b[2] != 0);
    let m = nd::bool();
    let mut args = nothing();
    args.name = Some(unsafe { String::from_utf8_unchecked(b.to_vec()) });
    args.mutable = Some(m);
    let [n0, n1, n2, n3] = &mut none;
    let ok = update(&[asset.info(), authority.info(), n0.info(), n1.info(), n2.info(), n3.info()], args);
    chk!(ok == may(&p, &authority), "[C16] name and mutability are updated if and only if the authority signs and the asset is mutable");
    if ok {
        chk!(p.live() && p.proxy_ok(), "[C05] update works only on initialized assets of this program, a proxied one signing");
        chk!(bytes_at(&asset.data, NAME, &b), "[C16] the asset has the new name");
        let i = nd::u8() as usize;
        nd::assume(i >= 3 && i < 35);
        chk!(asset.data[NAME + i] == 0, "[C16] nothing is left of the old name");
        chk!(asset.data[MUTABLE] == m as u8, "[C16] the asset has the new mutability");
        chk!(p.only(&asset, &[(NAME, LEN), (MUTABLE, MUTABLE + 1)]), "[C16] nothing but name and mutability changes");
    } else {
        chk!(p.unchanged(&asset), "[C16] a refused update changes nothing");
    }
}
/// Only the mutability.
//@ props=C16 nopanic=C16
fn up_mutable() {
    let mut asset = Acc::<168>::any();
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut none = [absent(), absent(), absent(), absent()];
    let p = snap(&asset);
    let m = nd::bool();
    let mut args = nothing();
    args.mutable = Some(m);
    let [n0, n1, n2, n3] = &mut none;
    let ok = update(&[asset.info(), authority.info(), n0.info(), n1.info(), n2.info(), n3.info()], args);
    chk!(ok == may(&p, &authority), "[C16] mutability is updated if and only if the authority signs and the asset is mutable");
    if ok {
        chk!(asset.data[MUTABLE] == m as u8, "[C16] the asset has the new mutability");
        chk!(p.only(&asset, &[(MUTABLE, MUTABLE + 1)]), "[C16] nothing but the mutability changes");
    }
}
/// An extension gets new data: same length, longer and shorter within and beyond its padding.
//@ props=C05,C16,C17 nopanic=C16 weight=20
fn up_same() { blob::<248, 5>(5); }
//@ props=C05,C16,C17 nopanic=C16 weight=20
fn up_padding() { blob::<248, 8>(5); }
//@ props=C05,C16,C17 nopanic=C16 weight=20
fn up_grow() { blob::<256, 12>(5); }
//@ props=C05,C16,C17 nopanic=C16 weight=20
fn up_shrink() { blob::<264, 3>(17); }

/// A new extension.
//@ props=C16,C17 nopanic=C16 weight=20
fn up_new() {
    let mut asset = Acc::<216>::any_len(192);
    asset.h.lamports = rent(192);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 5);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut none = absent();
    let mut none2 = absent();
    let mut pay = payer_signer();
    let mut sys = system_program();
    let p = snap(&asset);
    let pp = snap(&pay);
    let mut b: [u8; 5] = nd::bytes();
    b[0] = 1;
    let ok = update(&[asset.info(), authority.info(), none.info(), none2.info(), pay.info(), sys.info()], ext_in(ExtensionType::Blob, &b));
    chk!(ok == may(&p, &authority), "[C16] an extension is added if and only if the authority signs and the asset is mutable");
    if ok {
        chk!(asset.h.data_len == 216 && ext_at(&asset.data, 192, X_BLOB, 5, 216), "[C17] a new extension starts at the boundary of the last one");
        chk!(bytes_at(&asset.data, 208, &b), "[C16] the new extension has its data");
        let i = nd::u8() as usize;
        nd::assume(i < LEN + 21);
        chk!(asset.data[i] == p.d[i], "[C17] adding an extension leaves the others alone");
        chk!(asset.h.lamports == rent(216) && pay.h.lamports == pp.h.lamports - (rent(216) - rent(192)), "[C16] the payer pays exactly the rent of the additional bytes");
    }
}
/// A new extension in an account with room behind the last one.
//@ props=C16,C17 nopanic=C16 weight=20
fn up_new_room() {
    let mut asset = Acc::<216>::any_len(197);
    asset.h.lamports = rent(197);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 5);
    zero(&mut asset.data, 192, 197);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut none = absent();
    let mut none2 = absent();
    let mut pay = payer_signer();
    let mut sys = system_program();
    let p = snap(&asset);
    let mut b: [u8; 5] = nd::bytes();
    b[0] = 1;
    let ok = update(&[asset.info(), authority.info(), none.info(), none2.info(), pay.info(), sys.info()], ext_in(ExtensionType::Blob, &b));
    chk!(ok == may(&p, &authority), "[C16] an extension is added to an account with room left if and only if the authority signs and the asset is mutable");
    if ok {
        chk!(asset.h.data_len == 216 && ext_at(&asset.data, 192, X_BLOB, 5, 216), "[C17] a new extension starts at the boundary of the last one");
        chk!(bytes_at(&asset.data, 208, &b), "[C16] the new extension has its data");
    }
}
/// An update in an account with room behind the last extension.
//@ props=C16 nopanic=C16 weight=20
fn up_room() {
    let mut asset = Acc::<240>::any();
    put_ext(&mut asset.data, LEN, X_BLOB, 5);
    asset.data[184] = 1;
    zero(&mut asset.data, 192, 240);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut none = absent();
    let mut none2 = absent();
    let mut pay = payer_signer();
    let mut sys = system_program();
    let p = snap(&asset);
    let mut b: [u8; 5] = nd::bytes();
    b[0] = 1;
    let ok = update(&[asset.info(), authority.info(), none.info(), none2.info(), pay.info(), sys.info()], ext_in(ExtensionType::Blob, &b));
    chk!(ok == may(&p, &authority), "[C16] an extension of an account with room left is updated if and only if the authority signs and the asset is mutable");
    if ok {
        chk!(bytes_at(&asset.data, 184, &b), "[C16] the extension has the new data");
        chk!(p.only(&asset, &[(184, 189)]), "[C16] nothing but the data of the extension changes");
    }
}

/// Creators get new creators.
//@ props=C13,C16 nopanic=C13 weight=25
fn up_creators() { creators_update(false); }
//@ props=C13,C15,C16 nopanic=C13 weight=25
fn ub_creators() { creators_update(true); }
//@ props=C16,C22 nopanic=C22 weight=20
fn up_royalties() { royalties_update(false); }
//@ props=C15,C16,C22 nopanic=C22 weight=20
fn ub_royalties() { royalties_update(true); }
//@ props=C11,C16 nopanic=C11 weight=20
fn up_grouping() { grouping_update(false); }
//@ props=C11,C15,C16 nopanic=C11 weight=20
fn ub_grouping() { grouping_update(true); }

/// A manager or a proxy extension is never added.
//@ props=C23 weight=15
fn up_manager_new() { never_new::<33>(ExtensionType::Manager, X_MANAGER, false); }
//@ props=C23 weight=15
fn ub_manager_new() { never_new::<33>(ExtensionType::Manager, X_MANAGER, true); }
//@ props=C23 weight=15
fn up_proxy_new() { never_new::<97>(ExtensionType::Proxy, X_PROXY, false); }
//@ props=C23 weight=15
fn ub_proxy_new() { never_new::<97>(ExtensionType::Proxy, X_PROXY, true); }

/// The derivation of a proxied asset stays, its proxy authority can change.
//@ props=C16,C23 nopanic=C23 weight=20
fn up_proxy() {
    let mut asset = Acc::<288>::any();
    asset.h.lamports = rent(288);
    let (o, _) = put_ext(&mut asset.data, LEN, X_PROXY, 97);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let p = snap(&asset);
    let b: [u8; 97] = nd::bytes();
    let (ok, _) = swap::<288, 97, 288>(&mut asset, &mut authority, ExtensionType::Proxy, X_PROXY, &b, false);
    let same = keq(&key_at(&p.d, o), &key_at(&b, 0)) && keq(&key_at(&p.d, o + 32), &key_at(&b, 32)) && p.d[o + 64] == b[64];
    chk!(ok == (may(&p, &authority) && same), "[C23] a proxy extension is updated if and only if program, seeds and bump stay");
    if ok {
        chk!(keq(&key_at(&asset.data, o + 65), &key_at(&b, 65)), "[C16] the extension has the new data");
        chk!(p.only(&asset, &[(o + 65, o + 97)]), "[C23] an update leaves the derivation of a proxied asset alone");
    }
}
/// A manager is replaced.
//@ props=C16 nopanic=C16 weight=20
fn up_manager() {
    let mut asset = Acc::<224>::any();
    asset.h.lamports = rent(224);
    let (o, _) = put_ext(&mut asset.data, LEN, X_MANAGER, 33);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let p = snap(&asset);
    let b: [u8; 33] = nd::bytes();
    let (ok, _) = swap::<224, 33, 224>(&mut asset, &mut authority, ExtensionType::Manager, X_MANAGER, &b, false);
    chk!(ok == may(&p, &authority), "[C16] a manager is replaced if and only if the authority signs and the asset is mutable");
    if ok {
        chk!(bytes_at(&asset.data, o, &b), "[C16] the extension has the new data");
        chk!(p.only(&asset, &[(o, o + 33)]), "[C16] nothing but the data of the extension changes");
    }
}

/// Without data: what cannot be empty is not emptied.
//@ props=C13 weight=20
fn up_creators_none() {
    let (mut asset, _) = creators();
    chk!(!without_data(&mut asset, ExtensionType::Creators), "[C13] creators are never updated to nobody");
}
//@ props=C11 weight=20
fn up_grouping_none() {
    let mut asset = Acc::<232>::any();
    asset.h.lamports = rent(232);
    put_ext(&mut asset.data, LEN, X_GROUPING, 48);
    assume_valid_header(&asset.data);
    chk!(!without_data(&mut asset, ExtensionType::Grouping), "[C11] the size of a group is never removed by an update");
}
//@ props=C23 weight=20
fn up_manager_none() {
    let mut asset = Acc::<224>::any();
    asset.h.lamports = rent(224);
    put_ext(&mut asset.data, LEN, X_MANAGER, 33);
    assume_valid_header(&asset.data);
    chk!(!without_data(&mut asset, ExtensionType::Manager), "[C23] the manager of a managed asset is never removed by an update");
}
//@ props=C23 weight=20
fn up_proxy_none() {
    let mut asset = Acc::<288>::any();
    asset.h.lamports = rent(288);
    put_ext(&mut asset.data, LEN, X_PROXY, 97);
    assume_valid_header(&asset.data);
    chk!(!without_data(&mut asset, ExtensionType::Proxy), "[C23] the derivation of a proxied asset is never removed by an update");
}
//@ props=C23 weight=20
fn up_manager_new_none() {
    let mut asset = Acc::<208>::any_len(192);
    asset.h.lamports = rent(192);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 5);
    assume_valid_header(&asset.data);
    chk!(!without_data(&mut asset, ExtensionType::Manager), "[C23] only creation adds a manager or a proxy extension");
}
/// Both an argument and a buffer.
//@ props=C16 weight=15
fn up_both() {
    let mut asset = Acc::<192>::any();
    asset.h.lamports = rent(192);
    put_ext(&mut asset.data, LEN, X_BLOB, 5);
    asset.data[184] = 1;
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut buf = Acc::<192>::some();
    put_ext(&mut buf.data, LEN, X_BLOB, 5);
    buf.data[184] = 1;
    let mut none2 = absent();
    let mut pay = payer_signer();
    let mut sys = system_program();
    let b = [1, 0, 0, 0, 0];
    let ok = update(&[asset.info(), authority.info(), buf.info(), none2.info(), pay.info(), sys.info()], ext_in(ExtensionType::Blob, &b));
    chk!(!ok, "[C16] an extension is not updated from two sources");
}
/// A length other than that of the data.
//@ props=C17 weight=15
fn up_length() {
    let mut asset = Acc::<192>::any();
    asset.h.lamports = rent(192);
    put_ext(&mut asset.data, LEN, X_BLOB, 5);
    asset.data[184] = 1;
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut none = [absent(), absent(), absent(), absent()];
    let mut b: [u8; 5] = nd::bytes();
    b[0] = 1;
    let len = nd::u32();
    nd::assume(len != 5);
    let mut args = ext_in(ExtensionType::Blob, &b);
    if let Some(e) = &mut args.extension { e.length = len; }
    let [n0, n1, n2, n3] = &mut none;
    let ok = update(&[asset.info(), authority.info(), n0.info(), n1.info(), n2.info(), n3.info()], args);
    chk!(!ok, "[C17] an extension never gets another length than that of its data");
}
}
