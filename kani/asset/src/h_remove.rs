//! Remove (16): [asset, authority, group?, recipient]; Resize (17): [asset, authority, payer, system_program?].
use crate::h_create::payer_signer;
use crate::model::*;
use crate::nd;
use crate::{chk, witness};

/// The authority may change the asset.
fn may<const N: usize>(p: &Snap<N>, authority: &Acc<0>) -> bool {
    authority.is_signer() && p.live() && p.proxy_ok() && keq(&p.authority(), &authority.key()) && p.d[MUTABLE] != 0
}
fn recipient() -> Acc<0> {
    let r = Acc::<0>::some();
    nd::assume(r.h.lamports < 1 << 60);
    r
}
fn rm<const N: usize>(asset: &mut Acc<N>, authority: &mut Acc<0>, to: &mut Acc<0>, ty: ExtensionType) -> bool {
    let mut group = absent();
    remove(&[asset.info(), authority.info(), group.info(), to.info()], ty)
}

/// One of three extensions, 5 bytes of attributes, 3 bytes of blob and 9 bytes of
/// links, is removed; `room` zero bytes behind them.
fn of_three<const N: usize>(which: usize, room: usize) {
    let at = [168usize, 192, 216, 248];
    let types = [X_ATTRIBUTES, X_BLOB, X_LINKS];
    let lens = [5usize, 3, 9];
    let total = 248 + room;
    let mut asset = Acc::<N>::any();
    asset.h.lamports = rent(total);
    let mut i = 0;
    while i < 3 {
        put_ext(&mut asset.data, at[i], types[i], lens[i]);
        i += 1;
    }
    zero(&mut asset.data, 248, total);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut to = recipient();
    let p = snap(&asset);
    let t = snap(&to);
    let ty = match which {
        0 => ExtensionType::Attributes,
        1 => ExtensionType::Blob,
        _ => ExtensionType::Links,
    };
    let ok = rm(&mut asset, &mut authority, &mut to, ty);
    chk!(ok == may(&p, &authority), "[C18] an extension is removed if and only if the authority signs and the asset is mutable");
    if ok {
        witness!("[C18] an extension is removed");
        chk!(p.live() && p.proxy_ok(), "[C05] remove works only on initialized assets of this program, a proxied one signing");
        let gone = at[which + 1] - at[which];
        chk!(asset.h.data_len as usize == total - gone, "[C18] the account shrinks by the removed extension");
        let i = nd::u8() as usize;
        nd::assume(i < LEN);
        chk!(asset.data[i] == p.d[i], "[C18] removing an extension leaves the asset alone");
        let mut k = 0;
        while k < 3 {
            if k != which {
                let o = if k < which { at[k] } else { at[k] - gone };
                let end = if k < which { at[k + 1] } else { at[k + 1] - gone };
                chk!(ext_at(&asset.data, o, types[k], lens[k] as u32, end as u32), "[C17] after a removal the extensions follow each other");
                let i = nd::u8() as usize;
                nd::assume(i < lens[k]);
                chk!(asset.data[o + 16 + i] == p.d[at[k] + 16 + i], "[C17] removing one extension leaves the data of the others alone");
            }
            k += 1;
        }
        chk!(
            asset.h.lamports == rent(total - gone) && to.h.lamports == t.h.lamports + rent(total) - rent(total - gone),
            "[C18] the recipient gets exactly the rent that is set free"
        );
    } else {
        chk!(p.unchanged(&asset) && t.unchanged(&to), "[C18] a refused removal changes nothing");
    }
}
fn refused<const N: usize>(x: u32, len: usize, ty: ExtensionType) {
    let mut asset = Acc::<N>::any();
    asset.h.lamports = rent(N);
    let (_, n) = put_ext(&mut asset.data, LEN, x, len);
    zero(&mut asset.data, n, N);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut to = recipient();
    let p = snap(&asset);
    let ok = rm(&mut asset, &mut authority, &mut to, ty);
    chk!(!ok, "[C18] a manager, a proxy extension or an extension that is not there is never removed");
    chk!(x != X_MANAGER && x != X_PROXY || !ok, "[C23] manager and proxy extensions are never removed");
    chk!(p.unchanged(&asset), "[C18] a refused removal changes nothing");
}
fn group_removed<const N: usize>(len: usize) {
    let mut asset = Acc::<N>::any();
    asset.h.lamports = rent(N);
    let (o, _) = put_ext(&mut asset.data, LEN, X_GROUPING, len);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut to = recipient();
    let p = snap(&asset);
    let ok = rm(&mut asset, &mut authority, &mut to, ExtensionType::Grouping);
    chk!(ok == (may(&p, &authority) && get64(&p.d, o) == 0), "[C11] a group is removed if and only if it has no members");
    if ok {
        chk!(asset.h.data_len as usize == LEN, "[C18] the account shrinks by the removed extension");
        let i = nd::u8() as usize;
        nd::assume(i < LEN);
        chk!(asset.data[i] == p.d[i], "[C18] removing an extension leaves the asset alone");
    }
}

/// A resize of an asset with 5 bytes of attributes and `room` bytes behind them to `to` bytes.
fn resized<const N: usize>(room: usize, to: usize, strategy: Strategy) {
    let total = 192 + room;
    let mut asset = Acc::<N>::any_len(total);
    asset.h.lamports = rent(total);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 5);
    zero(&mut asset.data, 192, total);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut pay = payer_signer();
    let mut sys = system_program();
    let p = snap(&asset);
    let pp = snap(&pay);
    let ok = resize(&[asset.info(), authority.info(), pay.info(), sys.info()], strategy);
    chk!(ok == may(&p, &authority), "[C19] an asset is resized if and only if the authority signs and the asset is mutable");
    if ok {
        witness!("[C19] an asset is resized");
        chk!(p.live() && p.proxy_ok(), "[C05] resize works only on initialized assets of this program, a proxied one signing");
        chk!(asset.h.data_len as usize == to, "[C19] the account has the requested size");
        let i = nd::u8() as usize;
        nd::assume(i < 192);
        chk!(asset.data[i] == p.d[i], "[C19] resizing leaves the asset and its extensions alone");
        chk!(
            asset.h.lamports == rent(to) && pay.h.lamports == pp.h.lamports + rent(total) - rent(to),
            "[C19] the payer pays and gets back exactly the rent of the change"
        );
    } else {
        chk!(p.unchanged(&asset) && pp.unchanged(&pay), "[C19] a refused resize changes nothing");
    }
}

crate::harnesses! {
//@ props=C05,C17,C18 nopanic=C18 weight=20
fn rm_first() { of_three::<248>(0, 0); }
//@ props=C05,C17,C18 nopanic=C18 weight=20
fn rm_middle() { of_three::<248>(1, 0); }
//@ props=C05,C17,C18 nopanic=C18 weight=20
fn rm_last() { of_three::<248>(2, 0); }
//@ props=C17,C18 nopanic=C18 weight=20
fn rm_room() { of_three::<272>(0, 24); }
//@ props=C17,C18 nopanic=C18 weight=20
fn rm_last_room() { of_three::<254>(2, 6); }

/// An extension without data.
//@ props=C18 nopanic=C18
fn rm_empty() {
    let mut asset = Acc::<184>::any();
    asset.h.lamports = rent(184);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 0);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut to = recipient();
    let p = snap(&asset);
    let ok = rm(&mut asset, &mut authority, &mut to, ExtensionType::Attributes);
    chk!(ok == may(&p, &authority), "[C18] an extension without data is removed if and only if the authority signs and the asset is mutable");
    if ok {
        chk!(asset.h.data_len as usize == LEN, "[C18] the account shrinks by the removed extension");
    }
}
//@ props=C18
fn rm_absent() { refused::<192>(X_BLOB, 5, ExtensionType::Links); }
//@ props=C18
fn rm_nothing() { refused::<216>(X_BLOB, 5, ExtensionType::None); }
//@ props=C18,C23
fn rm_manager() { refused::<224>(X_MANAGER, 33, ExtensionType::Manager); }
//@ props=C18,C23
fn rm_proxy() { refused::<288>(X_PROXY, 97, ExtensionType::Proxy); }
//@ props=C11,C18 nopanic=C11
fn rm_group() { group_removed::<232>(48); }
//@ props=C11,C18 nopanic=C11
fn rm_group_legacy() { group_removed::<200>(16); }

//@ props=C05,C19 nopanic=C19
fn rs_trim() { resized::<216>(24, 192, Strategy::Trim); }
//@ props=C19 nopanic=C19
fn rs_trim_small() { resized::<197>(5, 192, Strategy::Trim); }
//@ props=C19 nopanic=C19
fn rs_trim_none() { resized::<192>(0, 192, Strategy::Trim); }
//@ props=C05,C19 nopanic=C19
fn rs_extend() { resized::<240>(0, 216, Strategy::Extend { value: 24 }); }
//@ props=C19 nopanic=C19
fn rs_extend_more() { resized::<240>(5, 202, Strategy::Extend { value: 5 }); }
/// An asset without extensions is trimmed to its header.
//@ props=C19 nopanic=C19
fn rs_bare() {
    let mut asset = Acc::<208>::any();
    asset.h.lamports = rent(208);
    zero(&mut asset.data, LEN, 208);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut pay = payer_signer();
    let mut sys = system_program();
    let p = snap(&asset);
    let ok = resize(&[asset.info(), authority.info(), pay.info(), sys.info()], Strategy::Trim);
    chk!(ok == may(&p, &authority), "[C19] an asset is resized if and only if the authority signs and the asset is mutable");
    if ok {
        chk!(asset.h.data_len as usize == LEN, "[C19] the account has the requested size");
        let i = nd::u8() as usize;
        nd::assume(i < LEN);
        chk!(asset.data[i] == p.d[i], "[C19] resizing leaves the asset and its extensions alone");
    }
}
/// Growing an account needs the payer's signature.
//@ props=C19
fn rs_nosig() {
    let mut asset = Acc::<216>::any_len(192);
    asset.h.lamports = rent(192);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 5);
    assume_valid_header(&asset.data);
    let mut authority = Acc::<0>::any();
    let mut pay = payer_signer();
    pay.h.is_signer = 0;
    let mut sys = system_program();
    let ok = resize(&[asset.info(), authority.info(), pay.info(), sys.info()], Strategy::Extend { value: 24 });
    chk!(!ok, "[C19] rent is taken only from a payer that signs");
}
}
