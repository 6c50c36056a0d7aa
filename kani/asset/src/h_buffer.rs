//! Buffers: Allocate (4): [asset, payer?, system_program?]; Write (12): [asset, payer, system_program].
use crate::h_create::{fresh, payer, payer_signer};
use crate::model::*;
use crate::nd;
use crate::{chk, witness};

/// Extension of type `ty` and declared length `len`, the first `K` bytes of which
/// are passed with the instruction.
fn ext_in<const K: usize>(ty: ExtensionType, len: u32, data: &[u8; K]) -> AllocateInput {
    AllocateInput {
        extension: ExtensionInput {
            extension_type: ty,
            length: len,
            data: Some(data.to_vec()),
        },
    }
}
fn bytes_in<const K: usize>(overwrite: bool, data: &[u8; K]) -> DataInput {
    DataInput {
        overwrite,
        bytes: data.to_vec(),
    }
}
/// A buffer with `len` bytes, `N - len` bytes of room behind them, its rent
/// paid exactly; header and everything else arbitrary.
fn buf<const N: usize>(len: usize) -> Acc<N> {
    let mut a = Acc::<N>::any_len(len);
    a.h.lamports = rent(len);
    a
}

crate::harnesses! {
/// A new buffer with a complete extension.
//@ props=C15,C17 nopanic=C15
fn al_new() {
    let mut asset = fresh::<192>();
    let mut pay = payer();
    let mut sys = system_program();
    let a = snap(&asset);
    let pp = snap(&pay);
    let b: [u8; 5] = nd::bytes();
    let ok = allocate(&[asset.info(), pay.info(), sys.info()], ext_in(ExtensionType::Attributes, 5, &b));
    if ok {
        witness!("[C15] a buffer is allocated");
        chk!(a.signer && pp.signer, "[C15] a buffer is allocated only with the signatures of its account and of the payer");
        chk!(keq(&asset.owner(), &program()) && asset.data[DISC] == 0, "[C15] a new buffer belongs to the program and is not an asset");
        chk!(asset.h.data_len == 192 && ext_at(&asset.data, 168, X_ATTRIBUTES, 5, 192), "[C17] the extension lies behind the header");
        chk!(bytes_at(&asset.data, 184, &b), "[C17] extension data is stored as given");
        chk!(asset.h.lamports == rent(192) && pay.h.lamports == pp.h.lamports - rent(192), "[C15] the payer pays exactly the rent of the buffer");
    } else {
        chk!(!(a.signer && pp.signer), "[C15] a buffer can be allocated");
    }
}

/// A second extension behind a complete one.
//@ props=C15,C17,C05 nopanic=C15 weight=20
fn al_second() {
    let mut asset = buf::<216>(192);
    let (o, _) = put_ext(&mut asset.data, LEN, X_BLOB, 3);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let a = snap(&asset);
    let pp = snap(&pay);
    let b: [u8; 7] = nd::bytes();
    let ok = allocate(&[asset.info(), pay.info(), sys.info()], ext_in(ExtensionType::Attributes, 7, &b));
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    if ok {
        witness!("[C15] a second extension is allocated");
        chk!(a.signer, "[C15] a buffer is extended only with its own signature");
        chk!(keq(&a.h.owner, &program()), "[C05] allocate works only on accounts of this program");
        chk!(a.d[DISC] == 0, "[C15] an initialized asset is never a buffer");
        chk!(asset.h.data_len == 216 && ext_at(&asset.data, 192, X_ATTRIBUTES, 7, 216), "[C17] the next extension starts at the 8-byte boundary of the previous");
        chk!(bytes_at(&asset.data, 208, &b), "[C17] extension data is stored as given");
        chk!(asset.h.lamports == rent(216) && pay.h.lamports == pp.h.lamports - (rent(216) - rent(192)), "[C15] the payer pays exactly the rent of the additional bytes");
        let i = nd::u8() as usize;
        nd::assume(i < o + 3);
        chk!(asset.data[i] == a.d[i], "[C17] allocating an extension leaves the others alone");
    } else {
        chk!(!ready, "[C15] an extension can be added to a buffer");
    }
}

/// The first part of an extension: the account ends where the data ends.
//@ props=C15,C17 nopanic=C15 weight=20
fn al_partial() {
    let mut asset = buf::<216>(192);
    let (o, _) = put_ext(&mut asset.data, LEN, X_BLOB, 3);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let a = snap(&asset);
    let b: [u8; 3] = nd::bytes();
    let ok = allocate(&[asset.info(), pay.info(), sys.info()], ext_in(ExtensionType::Attributes, 7, &b));
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    chk!(ok == ready, "[C15] the first part of an extension can be added to a buffer, only with its signature and only before creation");
    if ok {
        chk!(asset.h.data_len == 211 && ext_at(&asset.data, 192, X_ATTRIBUTES, 7, 216), "[C17] a partial extension has its final length and boundary");
        chk!(bytes_at(&asset.data, 208, &b), "[C17] extension data is stored as given");
        let i = nd::u8() as usize;
        nd::assume(i < o + 3);
        chk!(asset.data[i] == a.d[i], "[C17] allocating an extension leaves the others alone");
    }
}

/// No type twice.
//@ props=C15 nopanic=C15
fn al_dup() {
    let mut asset = Acc::<192>::any();
    put_ext(&mut asset.data, LEN, X_BLOB, 3);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let b: [u8; 7] = nd::bytes();
    let ok = allocate(&[asset.info(), pay.info(), sys.info()], ext_in(ExtensionType::Blob, 7, &b));
    chk!(!ok, "[C15] an extension is allocated at most once");
}

/// Not behind an extension whose data is still missing.
//@ props=C15 nopanic=C15
fn al_incomplete() {
    let mut asset = Acc::<186>::any();
    put_ext(&mut asset.data, LEN, X_BLOB, 3);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let b: [u8; 7] = nd::bytes();
    let ok = allocate(&[asset.info(), pay.info(), sys.info()], ext_in(ExtensionType::Attributes, 7, &b));
    chk!(!ok, "[C15] no extension is allocated behind an incomplete one");
}

/// Not more data than declared.
//@ props=C15,C17 nopanic=C15
fn al_excess() {
    let mut asset = Acc::<192>::any();
    put_ext(&mut asset.data, LEN, X_BLOB, 3);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let len = nd::u32();
    nd::assume(len < 7);
    let b: [u8; 7] = nd::bytes();
    let ok = allocate(&[asset.info(), pay.info(), sys.info()], ext_in(ExtensionType::Attributes, len, &b));
    chk!(!ok, "[C17] an extension never gets more data than its declared length");
}

/// The data that completes an extension.
//@ props=C15,C17,C05 nopanic=C15 weight=20
fn wr_append() {
    let mut asset = buf::<192>(186);
    put_ext(&mut asset.data, LEN, X_BLOB, 5);
    // content type of one byte
    asset.data[184] = 1;
    let mut pay = payer_signer();
    let mut sys = system_program();
    let a = snap(&asset);
    let pp = snap(&pay);
    let c: [u8; 3] = nd::bytes();
    let b = c;
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(false, &b));
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    if ok {
        witness!("[C15] the data of an extension is completed");
        chk!(a.signer, "[C15] a buffer is written only with its own signature");
        chk!(keq(&a.h.owner, &program()), "[C05] write works only on accounts of this program");
        chk!(a.d[DISC] == 0, "[C15] an initialized asset is never written as a buffer");
        chk!(asset.h.data_len == 192, "[C17] a complete extension ends at its boundary");
        chk!(bytes_at(&asset.data, 186, &b), "[C15] data is written behind what was there");
        let i = nd::u8() as usize;
        nd::assume(i < 186);
        chk!(asset.data[i] == a.d[i], "[C15] appending data leaves what was there alone");
        chk!(asset.h.lamports == rent(192) && pay.h.lamports == pp.h.lamports - (rent(192) - rent(186)), "[C15] the payer pays exactly the rent of the additional bytes");
    } else {
        chk!(!ready, "[C15] the data of a buffer can be completed");
    }
}

/// A part in the middle, behind another extension.
//@ props=C15,C17 nopanic=C15 weight=20
fn wr_part() {
    let mut asset = buf::<216>(209);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 3);
    put_ext(&mut asset.data, 192, X_BLOB, 7);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let a = snap(&asset);
    let b: [u8; 3] = nd::bytes();
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(false, &b));
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    chk!(ok == ready, "[C15] a part of the data can be written, only with the signature of the buffer and only before creation");
    if ok {
        chk!(asset.h.data_len == 212, "[C15] a buffer ends where its data ends until it is complete");
        chk!(bytes_at(&asset.data, 209, &b), "[C15] data is written behind what was there");
        let i = nd::u8() as usize;
        nd::assume(i < 209);
        chk!(asset.data[i] == a.d[i], "[C17] writing one extension leaves the others alone");
    }
}

/// Overwriting starts at the beginning of the data of the last extension.
//@ props=C15,C17 nopanic=C15 weight=20
fn wr_overwrite() {
    let mut asset = buf::<216>(213);
    put_ext(&mut asset.data, LEN, X_ATTRIBUTES, 3);
    put_ext(&mut asset.data, 192, X_BLOB, 7);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let a = snap(&asset);
    let pp = snap(&pay);
    let b: [u8; 3] = nd::bytes();
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(true, &b));
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    chk!(ok == ready, "[C15] data can be overwritten, only with the signature of the buffer and only before creation");
    if ok {
        chk!(asset.h.data_len == 211, "[C15] a buffer ends where its data ends until it is complete");
        chk!(bytes_at(&asset.data, 208, &b), "[C15] overwriting starts over");
        chk!(asset.h.lamports == rent(211) && pay.h.lamports == pp.h.lamports + (rent(213) - rent(211)), "[C15] shrinking a buffer gives its rent back to the payer");
        let i = nd::u8() as usize;
        nd::assume(i < 208);
        chk!(asset.data[i] == a.d[i], "[C17] overwriting one extension leaves the others alone");
    }
}

/// Overwriting everything completes the extension.
//@ props=C15,C17 nopanic=C15 weight=20
fn wr_overwrite_all() {
    let mut asset = buf::<192>(186);
    put_ext(&mut asset.data, LEN, X_BLOB, 5);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let a = snap(&asset);
    let c: [u8; 4] = nd::bytes();
    let b = [1, c[0], c[1], c[2], c[3]];
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(true, &b));
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    chk!(ok == ready, "[C15] data can be overwritten, only with the signature of the buffer and only before creation");
    if ok {
        chk!(asset.h.data_len == 192, "[C17] a complete extension ends at its boundary");
        chk!(bytes_at(&asset.data, 184, &b), "[C15] overwriting starts over");
    }
}

/// A complete extension is overwritten.
//@ props=C15,C17 nopanic=C15 weight=20
fn wr_rewrite() {
    let mut asset = buf::<192>(192);
    put_ext(&mut asset.data, LEN, X_BLOB, 5);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let a = snap(&asset);
    let c: [u8; 4] = nd::bytes();
    let b = [1, c[0], c[1], c[2], c[3]];
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(true, &b));
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    chk!(ok == ready, "[C15] data can be overwritten, only with the signature of the buffer and only before creation");
    if ok {
        chk!(asset.h.data_len == 192, "[C17] a complete extension ends at its boundary");
        chk!(bytes_at(&asset.data, 184, &b), "[C15] overwriting starts over");
    }
}

/// Not more data than declared.
//@ props=C15,C17 nopanic=C15 weight=20
fn wr_excess() {
    let mut asset = buf::<208>(186);
    put_ext(&mut asset.data, LEN, X_BLOB, 5);
    asset.data[184] = 1;
    let mut pay = payer_signer();
    let mut sys = system_program();
    let b: [u8; 4] = nd::bytes();
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(false, &b));
    chk!(!ok, "[C17] an extension never gets more data than its declared length");
}
//@ props=C15,C17 nopanic=C15 weight=20
fn wr_overwrite_excess() {
    let mut asset = buf::<208>(186);
    put_ext(&mut asset.data, LEN, X_BLOB, 5);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let c: [u8; 5] = nd::bytes();
    let b = [1, c[0], c[1], c[2], c[3], c[4]];
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(true, &b));
    chk!(!ok, "[C17] an extension never gets more data than its declared length");
}

/// Completed creators are checked like at creation, and none is verified.
//@ props=C13,C15 nopanic=C13 weight=20
fn wr_creators() {
    let mut asset = buf::<256>(248);
    let (o, _) = put_ext(&mut asset.data, LEN, X_CREATORS, 68);
    let mut pay = payer_signer();
    let mut sys = system_program();
    let a = snap(&asset);
    let b: [u8; 4] = nd::bytes();
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(false, &b));
    let ready = a.signer && keq(&a.h.owner, &program()) && a.d[DISC] == 0;
    let total = a.d[o + 33] as u32 + b[3] as u32;
    chk!(ok == (ready && total == 100), "[C13] creators are accepted if and only if their shares add up to 100");
    if ok {
        let i = nd::u8() as usize;
        nd::assume(i < 68 && i != 32 && i != 66);
        let want = if i < 64 { a.d[o + i] } else { b[i - 64] };
        chk!(asset.data[o + i] == want, "[C15] the data of a buffer is what was written");
        chk!(asset.data[o + 32] == 0 && asset.data[o + 66] == 0, "[C13] writing verifies no creator");
    }
}

/// Without the signature of the payer.
//@ props=C15
fn wr_nosig() {
    let mut asset = Acc::<192>::any_len(186);
    put_ext(&mut asset.data, LEN, X_BLOB, 7);
    let mut pay = payer();
    pay.h.is_signer = 0;
    let mut sys = system_program();
    let b: [u8; 2] = nd::bytes();
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(false, &b));
    chk!(!ok, "[C15] a buffer is written only with the signature of the payer");
}
/// With another program instead of the system program.
//@ props=C15
fn wr_nosys() {
    let mut asset = buf::<192>(186);
    put_ext(&mut asset.data, LEN, X_BLOB, 7);
    let mut pay = payer_signer();
    let mut sys = Acc::<0>::any();
    sys.set_key([7; 32]);
    let b: [u8; 2] = nd::bytes();
    let ok = write(&[asset.info(), pay.info(), sys.info()], bytes_in(false, &b));
    chk!(!ok, "[C15] rent is moved only by the System Program");
}
}
