// Copyright (c) 2024 nifty-oss maintainers
// Copyright (c) 2024 Magnetar Fields
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// You may obtain a copy of the License at
//
//     http://www.apache.org/licenses/LICENSE-2.0
//
// Unless required by applicable law or agreed to in writing, software
// distributed under the License is distributed on an "AS IS" BASIS,
// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
// See the License for the specific language governing permissions and
// limitations under the License.

//! System Program CPI functions.

//
// VERIFICATION MODEL. The upstream functions issue a CPI to the System Program
// on-chain and are no-ops on any other target, so off-chain the effect of the
// System Program has to be modelled. A refused CPI aborts the transaction on
// chain; here it panics. Everything else of this crate is the unmodified
// nitrate-program 0.1.0.

use solana_program::{pubkey::Pubkey, system_program};

use crate::AccountInfo;

macro_rules! cpi_require {
    ($c:expr) => {
        if !$c {
            panic!("system program refused the CPI");
        }
    };
}

/// Create a new account (model of `SystemInstruction::CreateAccount`).
pub fn create_account(
    funder: &AccountInfo,
    account: &AccountInfo,
    lamports: u64,
    space: u64,
    owner: &Pubkey,
) {
    unsafe {
        let f = funder.raw;
        let a = account.raw;
        cpi_require!((*f).is_signer != 0 && (*a).is_signer != 0);
        cpi_require!((*f).is_writable != 0 && (*a).is_writable != 0);
        cpi_require!((*a).data_len == 0 && (*a).owner == system_program::ID);
        cpi_require!((*a).lamports == 0);
        cpi_require!((*f).owner == system_program::ID && (*f).data_len == 0);
        cpi_require!((*f).lamports >= lamports);
        (*f).lamports -= lamports;
        (*a).lamports += lamports;
        (*a).data_len = space;
        (*a).owner = *owner;
    }
}

/// Transfer lamports between accounts (model of `SystemInstruction::Transfer`).
pub fn transfer(from: &AccountInfo, recipient: &AccountInfo, amount: u64) {
    unsafe {
        let f = from.raw;
        let r = recipient.raw;
        cpi_require!((*f).is_signer != 0);
        cpi_require!((*f).is_writable != 0 && (*r).is_writable != 0);
        cpi_require!((*f).owner == system_program::ID && (*f).data_len == 0);
        cpi_require!((*f).lamports >= amount);
        cpi_require!((*r).lamports.checked_add(amount).is_some() || f == r);
        (*f).lamports -= amount;
        (*r).lamports += amount;
    }
}
