import sys; sys.path.insert(0, "/verif/tools")
from seedlib import *

make("s01", "C01", [(PS + "processor/transfer.rs", '''    let is_allowed = asset.owner == *ctx.accounts.signer.key()
        || assert_delegate(
            &[
                asset.delegate.value(),
                Extension::get::<Manager>(extensions).map(|s| s.delegate),
            ],
            ctx.accounts.signer.key(),
            DelegateRole::Transfer,
        )
        .is_ok();
''', '''    let manager = Extension::get::<Manager>(extensions).map(|s| s.delegate);

    let is_allowed = asset.owner == *ctx.accounts.signer.key()
        || assert_delegate(
            &[asset.delegate.value()],
            ctx.accounts.signer.key(),
            DelegateRole::Transfer,
        )
        .is_ok()
        || manager.map(|manager| *manager.address == *ctx.accounts.signer.key()) == Some(true);
''')], '''
fn main() {
    let mut good = A::asset(key(9), &asset(key(1), key(2)).standard(1).manager(key(3), 1).0);
    expect(run(&mut [&mut good, &mut A::wallet(key(3), true), &mut A::wallet(key(5), false), &mut A::none()], &[7]), "manager with the transfer role transfers");
    let mut a = A::asset(key(9), &asset(key(1), key(2)).standard(1).manager(key(3), 4).0);
    let ok = run(&mut [&mut a, &mut A::wallet(key(3), true), &mut A::wallet(key(5), false), &mut A::none()], &[7]);
    expect(!ok, "a manager with the burn role only transferred the asset");
}''', "a managed asset whose manager lacks the transfer role", "the manager transfers the asset without holding the transfer role")

make("s02", "C02", [(PS + "processor/transfer.rs", '''    // Clear the delegate.
    asset.delegate = PodOption::new(Delegate::default());
''', '''    // Clear the delegate, unless the recipient is the one the asset is delegated to.
    let keep = asset
        .delegate
        .value()
        .map(|delegate| *delegate.address == asset.owner)
        == Some(true);

    if !keep {
        asset.delegate = PodOption::new(Delegate::default());
    }
''')], '''
fn main() {
    let mut a = A::asset(key(9), &asset(key(1), key(2)).delegate(key(5), 7).0);
    expect(run(&mut [&mut a, &mut A::wallet(key(1), true), &mut A::wallet(key(5), false), &mut A::none()], &[7]), "owner transfers");
    expect(a.key_at(4) == key(5), "owner");
    expect(a.key_at(100) == [0; 32] && a.data()[132] == 0, "the delegate survived the transfer");
}''', "a transfer to the current delegate", "the delegate approval survives a change of owner")

make("s03", "C03", [(PS + "processor/transfer.rs", '''    // Cannot transfer soulbound assets.
    require!(
        asset.standard != Standard::Soulbound,
        AssetError::CannotTransferSoulbound,
        "soulbound asset"
    );
''', '''    // Owners cannot transfer soulbound assets.
    if asset.owner == *ctx.accounts.signer.key() {
        require!(
            asset.standard != Standard::Soulbound,
            AssetError::CannotTransferSoulbound,
            "soulbound asset"
        );
    }
''')], '''
fn main() {
    let mut a = A::asset(key(9), &asset(key(1), key(2)).standard(2).0);
    expect(!run(&mut [&mut a, &mut A::wallet(key(1), true), &mut A::wallet(key(5), false), &mut A::none()], &[7]), "owner transferred a soulbound asset");
    let mut a = A::asset(key(9), &asset(key(1), key(2)).standard(2).delegate(key(3), 1).0);
    expect(!run(&mut [&mut a, &mut A::wallet(key(3), true), &mut A::wallet(key(5), false), &mut A::none()], &[7]), "a delegate transferred a soulbound asset");
}''', "a soulbound asset with a transfer delegate", "the delegate moves a soulbound asset")

make("s04", "C04", [(PS + "processor/mod.rs", '''            if data[DISCRIMINATOR_INDEX] == u8::from(Discriminator::Asset)
                && data[STATE_INDEX] == u8::from(State::Locked)
''', '''            // a proxied asset that signs has been authorized by its program
            let authorized = account_info.is_signer()
                && data[STANDARD_INDEX] == u8::from(Standard::Proxied);

            if data[DISCRIMINATOR_INDEX] == u8::from(Discriminator::Asset)
                && data[STATE_INDEX] == u8::from(State::Locked)
                && !authorized
''')], '''
fn main() {
    for st in [0, 3] {
        let mut a = A::asset(key(9), &asset(key(1), key(2)).standard(st).locked().0).signed();
        expect(!run(&mut [&mut a, &mut A::wallet(key(1), true), &mut A::wallet(key(5), false), &mut A::none()], &[7]), "a locked asset was transferred");
        let mut a = A::asset(key(9), &asset(key(1), key(2)).standard(st).locked().0).signed();
        expect(!run(&mut [&mut a, &mut A::wallet(key(1), true), &mut A::none(), &mut A::none()], &[1]), "a locked asset was burned");
    }
}''', "a locked, proxied asset whose account signs", "a locked asset is transferred or burned")

make("s05", "C05", [(PS + "processor/unverify.rs", '''    require!(
        ctx.accounts.asset.owner() == program_id,
        ProgramError::IllegalOwner,
        "invalid asset account owner"
    );
''', '''    require!(
        ctx.accounts.asset.owner() == program_id || ctx.accounts.asset.is_signer(),
        ProgramError::IllegalOwner,
        "invalid asset account owner"
    );
''')], '''
fn main() {
    let d = asset(key(1), key(2)).creators(&[(key(3), true, 100)]).0;
    let mut a = A::asset(key(9), &d);
    expect(run(&mut [&mut a, &mut A::wallet(key(3), true)], &[9]), "creator unverifies");
    let mut a = A::new(key(9), key(77), 1 << 30, &d, true);
    expect(!run(&mut [&mut a, &mut A::wallet(key(3), true)], &[9]), "an account of another program was accepted as asset");
}''', "an account of another program that signs", "unverify accepts an account that does not belong to the program")

make("s06", "C06", [(PS + "processor/unlock.rs", '''    if asset.delegate.value().is_some() {
        assert_delegate(''', '''    if asset.delegate.value().is_some() && asset.owner != *ctx.accounts.signer.key() {
        assert_delegate(''')], '''
fn main() {
    let mut a = A::asset(key(9), &asset(key(1), key(2)).locked().0);
    expect(run(&mut [&mut a, &mut A::wallet(key(1), true)], &[8]), "owner unlocks without delegate");
    let mut a = A::asset(key(9), &asset(key(1), key(2)).locked().delegate(key(3), 2).0);
    expect(!run(&mut [&mut a, &mut A::wallet(key(1), true)], &[8]), "the owner unlocked an asset locked by a delegate");
}''', "an asset locked by a delegate, unlocked by its owner", "the owner escapes the lock of a delegate (for example an escrowless listing)")

make("s07", "C07", [(TS + "state/delegate.rs", '''        self.roles > 0
''', '''        [DelegateRole::Transfer, DelegateRole::Lock]
            .iter()
            .any(|role| self.roles & role.mask() > 0)
''')], '''
fn main() {
    // revoke Transfer from a delegate with Transfer and Burn
    let mut a = A::asset(key(9), &asset(key(1), key(2)).delegate(key(3), 5).0);
    expect(run(&mut [&mut a, &mut A::wallet(key(1), true)], &[6, 1, 1, 0, 0, 0, 1]), "revoke");
    expect(a.key_at(100) == key(3) && a.data()[132] == 4, "revoking one role took another one away");
}''', "a delegate left with the burn role only", "revoking one role drops the delegate although it still has the burn role")

make("s08", "C08", [(PS + "processor/burn.rs", '''            .checked_sub(1)
            .ok_or(ProgramError::InvalidAccountData)?;
    }

    // if the asset itself is a group, we require it to be empty
    if let Some(grouping) = Asset::get::<Grouping>(&data) {''', '''            .checked_sub(1)
            .ok_or(ProgramError::InvalidAccountData)?;
    }
    // if the asset itself is a group, we require it to be empty
    else if let Some(grouping) = Asset::get::<Grouping>(&data) {''')], '''
fn main() {
    let mut g = A::asset(key(8), &asset(key(1), key(2)).grouping(1, 0, [0; 32]).0);
    let mut a = A::asset(key(9), &asset(key(1), key(2)).group(key(8)).grouping(2, 0, [0; 32]).0);
    expect(!run(&mut [&mut a, &mut A::wallet(key(1), true), &mut A::none(), &mut g], &[1]), "a group with members was burned");
}''', "a group with members that is itself a member of a group", "a non-empty group is burned and its members are orphaned")

make("s09", "C09", [(PS + "utils.rs", '''!(get_stack_height() > TRANSACTION_LEVEL_STACK_HEIGHT)''', '''!(get_stack_height() > TRANSACTION_LEVEL_STACK_HEIGHT + 1)''')], '''
fn main() {
    for stack in [2, 3] {
        unsafe { STACK = stack };
        let mut a = A::asset(key(9), &asset(key(1), key(2)).royalties(500, 2, key(4)).0);
        expect(!run(&mut [&mut a, &mut A::wallet(key(1), true), &mut A::wallet(key(5), false), &mut A::none()], &[7]), "the royalty rule was skipped in a CPI");
    }
    unsafe { STACK = 1 };
    let mut a = A::asset(key(9), &asset(key(1), key(2)).royalties(500, 2, key(4)).0);
    expect(run(&mut [&mut a, &mut A::wallet(key(1), true), &mut A::wallet(key(5), false), &mut A::none()], &[7]), "wallet to wallet");
}''', "a transfer called by another program (CPI depth 2) between system-owned accounts", "a marketplace program bypasses the royalty rule")

make("s11", "C11", [(PS + "processor/group.rs", '''*grouping.size < **max_size,''', '''grouping.size.saturating_sub(1) < **max_size,''')], '''
fn main() {
    for (size, ok) in [(0u64, true), (1, true), (2, false), (3, false)] {
        let mut g = A::asset(key(8), &asset(key(1), key(2)).grouping(size, 2, [0; 32]).0);
        let mut a = A::asset(key(9), &asset(key(1), key(2)).0);
        expect(run(&mut [&mut a, &mut g, &mut A::wallet(key(2), true)], &[13]) == ok, "maximum group size");
    }
}''', "a group filled exactly to its maximum", "a group grows beyond its maximum size")

make("s12", "C12", [(PS + "processor/create.rs", '''        // make sure that the asset is not already initialized since the
        // account might have been created adding extensions
        require!(
            data[0] == u8::from(Discriminator::Uninitialized),
            AssetError::AlreadyInitialized,
            "asset"
        );
    }
''', '''        // make sure that the asset is not already initialized since the
        // account might have been created adding extensions
        if args.extensions.is_some() || data.len() == Asset::LEN {
            require!(
                data[0] == u8::from(Discriminator::Uninitialized),
                AssetError::AlreadyInitialized,
                "asset"
            );
        }
    }
''')], '''
fn main() {
    let ix = [2, 1, 0, 0, 0, b'n', 0, 1, 0];
    let d = asset(key(1), key(2)).ext(2, &[1, b'a', 0, 0, 0, 0, 0, 0]).0;
    let mut a = A::asset(key(9), &d).signed();
    let ok = run(&mut [&mut a, &mut A::wallet(key(6), true), &mut A::wallet(key(7), false), &mut A::none(), &mut A::none(), &mut A::none(), &mut A::none()], &ix);
    expect(!ok, "an existing asset was created again");
}''', "an initialized asset with extensions whose key signs again", "the asset is re-initialized with another owner and authority")

make("s14", "C14", [(PS + "processor/verify.rs", '''        if creator.address == *ctx.accounts.creator.key() {
            creator.verified = true.into();
            found = true;
        }
''', '''        if creator.address == *ctx.accounts.creator.key() {
            found = true;
        }
        // once found, the remaining entries keep their state
        creator.verified = (found || creator.verified.into()).into();
''')], '''
fn main() {
    let mut a = A::asset(key(9), &asset(key(1), key(2)).creators(&[(key(3), false, 50), (key(4), false, 50)]).0);
    expect(run(&mut [&mut a, &mut A::wallet(key(3), true)], &[11]), "creator verifies");
    let d = a.data();
    expect(d[184 + 32] == 1, "the creator is verified");
    expect(d[184 + 66] == 0, "another creator became verified");
}''', "a creator that verifies while another one follows in the list", "creators behind the signer become verified without signing")

make("s15", "C15", [(PS + "processor/close.rs", '''    require!(
        ctx.accounts.buffer.is_signer(),
        ProgramError::MissingRequiredSignature,
        "buffer"
    );
''', '''    // a buffer without extension data can be closed by anyone
    require!(
        ctx.accounts.buffer.is_signer()
            || ctx.accounts.buffer.data_len() <= nifty_asset_types::state::Asset::LEN,
        ProgramError::MissingRequiredSignature,
        "buffer"
    );
''')], '''
fn main() {
    let d = vec![0u8; 168];
    let mut b = A::new(key(9), program(), 5000, &d, true);
    let mut r = A::wallet(key(5), false);
    let before = r.lamports();
    expect(run(&mut [&mut b, &mut r], &[0]) && r.lamports() == before + 5000 && b.len() == 0, "close");
    let mut b = A::new(key(9), program(), 5000, &d, false);
    expect(!run(&mut [&mut b, &mut A::wallet(key(5), false)], &[0]), "a buffer was closed without its signature");
}''', "a buffer of header size that does not sign", "anyone takes the lamports of a buffer")

make("s20", "C20", [(PS + "processor/handover.rs", '''        ctx.accounts.new_authority.is_signer(),''', '''        ctx.accounts.new_authority.is_signer()
            || ctx.accounts.new_authority.owner() == program_id,''')], '''
fn main() {
    let mut a = A::asset(key(9), &asset(key(1), key(2)).0);
    expect(run(&mut [&mut a, &mut A::wallet(key(2), true), &mut A::wallet(key(5), true)], &[15]), "handover");
    let mut a = A::asset(key(9), &asset(key(1), key(2)).0);
    let mut n = A::asset(key(5), &asset(key(1), key(2)).0);
    expect(!run(&mut [&mut a, &mut A::wallet(key(2), true), &mut n], &[15]), "the authority was handed to an account that did not sign");
}''', "a new authority that is an account of the program and does not sign", "authority is moved to a key nobody may control")

make("s22", "C22", [(TS + "extensions/royalties.rs", '''        if *self.basis_points > 10000 {''', '''        if *self.basis_points as u32 > 10000 {''')], '''
fn main() {
    for (bps, ok) in [(10000u64, true), (10001, false), (1 << 32, false), (u64::MAX, false)] {
        let mut d = asset([0; 32], [0; 32]).royalties(bps, 2, key(4)).0;
        d[0] = 0;
        d[3] = 0;
        let mut a = A::asset(key(9), &d).signed();
        let r = run(&mut [&mut a, &mut A::wallet(key(6), true), &mut A::wallet(key(7), false), &mut A::none(), &mut A::none(), &mut A::none(), &mut A::none()], &[2, 1, 0, 0, 0, b'n', 0, 1, 0]);
        expect(r == ok, "royalties above 100 percent");
    }
}''', "basis points of 2^32 or more", "royalties above 100 percent are accepted")

make("s23", "C23", [(PS + "processor/create.rs", '''    let has_manager = extensions
        .iter()
        .any(|extension| extension == &ExtensionType::Manager);
''', '''    let has_manager = extensions.last() == Some(&ExtensionType::Manager);
''')], '''
fn main() {
    for (st, ok) in [(0u8, false), (1, true)] {
        let mut d = asset([0; 32], [0; 32]).manager(key(3), 7).ext(2, &[1, b'a', 0, 0, 0, 0, 0, 0]).0;
        d[0] = 0;
        d[3] = 0;
        let mut a = A::asset(key(9), &d).signed();
        let r = run(&mut [&mut a, &mut A::wallet(key(6), true), &mut A::wallet(key(7), false), &mut A::none(), &mut A::none(), &mut A::none(), &mut A::none()], &[2, 1, 0, 0, 0, b'n', st, 1, 0]);
        expect(r == ok, "manager extension and managed standard");
    }
}''', "a manager extension that is not the last one", "an asset that is not managed gets a manager, which can then transfer and burn it")
