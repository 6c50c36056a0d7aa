//! Native (non-Kani) side of the replay: host functions and the driver.
use crate::{model, nd};
use solana_program::{program_stubs, rent::Rent};

struct Host;
impl program_stubs::SyscallStubs for Host {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_stack_height(&self) -> u64 {
        model::st_stack()
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
}

pub fn replay(name: &str, values: &str) -> i32 {
    let text = std::fs::read_to_string(values).unwrap();
    nd::INPUT.with(|q| {
        for l in text.lines() {
            let l = l.trim();
            let v: Vec<u8> = (0..l.len() / 2)
                .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap())
                .collect();
            if !v.is_empty() {
                q.borrow_mut().push_back(v);
            }
        }
    });
    program_stubs::set_syscall_stubs(Box::new(Host));
    let f = crate::registry()
        .into_iter()
        .find(|(n, _)| *n == name)
        .expect("unknown harness")
        .1;
    std::panic::set_hook(Box::new(|i| println!("PANIC {}", i)));
    let r = std::panic::catch_unwind(f);
    nd::FAILED.with(|v| v.borrow().iter().for_each(|m| println!("FAIL {}", m)));
    nd::WITNESSED.with(|v| v.borrow().iter().for_each(|m| println!("WITNESS {}", m)));
    if r.is_err() {
        return 3;
    }
    nd::FAILED.with(|v| !v.borrow().is_empty()) as i32
}
