#![allow(static_mut_refs)]
#[macro_use]
pub mod nd;
pub mod h_transfer;
pub mod h_burn;
pub mod h_roles;
pub mod h_group;
pub mod h_verify;
pub mod h_gates;
pub mod h_create;
pub mod h_buffer;
pub mod h_remove;
pub mod h_update;
pub mod model;
#[cfg(not(kani))]
pub mod native;

#[cfg(kani)]
mod root {
    use crate::model::*;
    #[kani::proof]
    #[kani::stub(alloc::fmt::format, st_format)]
    #[kani::stub(solana_program::program_stubs::sol_log, st_log)]
    #[kani::stub(solana_program::program_stubs::sol_get_stack_height, st_stack)]
    #[kani::stub(solana_program::program_stubs::sol_memcpy, st_memcpy)]
    #[kani::stub(solana_program::program_stubs::sol_memmove, st_memmove)]
    #[kani::stub(solana_program::program_stubs::sol_get_rent_sysvar, st_rent)]
    #[kani::stub(solana_program::rent::Rent::minimum_balance, st_min_balance)]
    #[kani::stub(solana_program::pubkey::Pubkey::create_program_address, st_pda)]
    #[kani::stub(alloc::string::String::from_utf8, st_utf8)]
    #[kani::stub(bytemuck::internal::is_aligned_to, st_aligned)]
    fn root() {
        crate::h_transfer::reach();
        crate::h_burn::reach();
        crate::h_roles::reach();
        crate::h_group::reach();
        crate::h_verify::reach();
        crate::h_gates::reach();
        crate::h_create::reach();
        crate::h_buffer::reach();
        crate::h_remove::reach();
        crate::h_update::reach();
    }
}

pub fn registry() -> Vec<(&'static str, fn())> {
    let mut v = Vec::new();
    for m in [h_transfer::ALL, h_burn::ALL, h_roles::ALL, h_group::ALL, h_verify::ALL, h_gates::ALL, h_create::ALL, h_buffer::ALL, h_remove::ALL, h_update::ALL] {
        v.extend_from_slice(m);
    }
    v
}
