#![allow(non_snake_case, dead_code)]
mod common;
mod curve;
mod explore;
mod linsolve;
mod p01;
mod p02;
mod p03;
mod p20;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod recorder;
mod gadget;
mod kani;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p16;
mod p17;
mod p21;
mod p22;
mod path;
mod replay;
mod rerand;
mod windows;
mod poly;
mod report;
mod smt;
mod sym;
mod sysrun;

fn dispatch(pid: &str, r: &mut report::Report) -> bool {
    match pid {
        "P01" => p01::run(r),
        "P02" => p02::run(r),
        "P03" => p03::run(r),
        "P20" => p20::run(r),
        "P04" => p04::run(r),
        "P05" => p05::run(r),
        "P06" => p06::run(r),
        "P23" => p06::run23(r),
        "P07" => p07::run(r),
        "P08" => p08::run(r),
        "P09" => p09::run(r),
        "P10" => p10::run(r),
        "P11" => p11::run(r),
        "P12" => p12::run(r),
        "P13" => p13::run(r),
        "P14" => p14::run14(r),
        "P15" => p14::run15(r),
        "P16" => p16::run(r),
        "P17" => p17::run17(r),
        "P18" => p17::run18(r),
        "P19" => p17::run19(r),
        "P21" => p21::run(r),
        "P22" => p22::run(r),
        _ => return false,
    }
    true
}

fn run(pid: &str) -> i32 {
    let mut r = report::Report::new(pid);
    sym::seed_shadow(r.seed);
    common::install_hook();
    let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(pid, &mut r)));
    match caught {
        Ok(true) => {}
        Ok(false) => {
            println!("unknown property {}", pid);
            return 4;
        }
        Err(_) => {
            // the runs outside `quiet` are ones the property says succeed: a panic raised by the code itself breaks it
            let at = common::LAST_PANIC.with(|p| p.borrow().clone());
            if at.contains("bulletproofs/src/") || at.contains("relations/src/") {
                r.violation("panic", &format!("the code under check panics at {} on an input it must handle", at));
            } else {
                r.inconclusive(format!("the check stopped at {}", at));
            }
        }
    }
    r.finish()
}

fn main() {
    let pid = std::env::args().nth(1).expect("property id");
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || run(&pid)).unwrap();
    let c = h.join().unwrap_or(5);
    std::process::exit(c);
}
