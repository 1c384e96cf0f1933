//! Native replay: runs harnesses of the real, natively compiled code on concrete inputs.
//! usage: replay FILE      lines: `harness w:v w:v ...`
//! prints one line per case: `ok obs...` | `check ID obs...` | `panic MSG` | `assume` | `input` (ran out of inputs)
use std::cell::RefCell;
use std::io::Write;

thread_local! {
    static IN: RefCell<(Vec<(u32, u64)>, usize)> = RefCell::new((vec![], 0));
    static OBS: RefCell<Vec<u64>> = RefCell::new(vec![]);
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
enum Stop {
    Check(u32),
    Assume,
    Input,
}
fn next(w: u32) -> u64 {
    let r = IN.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).copied()
    });
    match r {
        Some((w2, v)) if w2 == w => v,
        _ => std::panic::panic_any(Stop::Input),
    }
}
#[no_mangle]
pub extern "C" fn ruq_verif_unavailable() -> ! {
    println!("unavailable");
    std::process::exit(0)
}
#[no_mangle]
pub extern "C-unwind" fn sym_u8() -> u8 {
    next(8) as u8
}
#[no_mangle]
pub extern "C-unwind" fn sym_u16() -> u16 {
    next(16) as u16
}
#[no_mangle]
pub extern "C-unwind" fn sym_u32() -> u32 {
    next(32) as u32
}
#[no_mangle]
pub extern "C-unwind" fn sym_u64() -> u64 {
    next(64)
}
#[no_mangle]
pub extern "C-unwind" fn sym_bool() -> bool {
    next(1) & 1 == 1
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = next(8) as u8;
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_choice(n: u32) -> u32 {
    if n <= 1 {
        0
    } else {
        let v = next(32) as u32;
        if v >= n {
            std::panic::panic_any(Stop::Input)
        }
        v
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        std::panic::panic_any(Stop::Assume)
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_check(c: bool, id: u32) {
    if !c {
        std::panic::panic_any(Stop::Check(id))
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_cover(_id: u32) {}
#[no_mangle]
pub extern "C-unwind" fn sym_step_limit(_n: u64) {}
#[no_mangle]
pub extern "C-unwind" fn sym_observe(x: u64) {
    OBS.with(|o| o.borrow_mut().push(x))
}

fn main() {
    let f = std::env::args().nth(1).expect("replay file");
    let text = std::fs::read_to_string(f).expect("read");
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Stop>().is_none() {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m.replace('\n', " "), l));
        }
    }));
    for line in text.lines() {
        let mut it = line.split_whitespace();
        let name = match it.next() {
            Some(n) => n,
            None => continue,
        };
        let vals: Vec<(u32, u64)> = it
            .map(|t| {
                let (a, b) = t.split_once(':').expect("w:v");
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect();
        IN.with(|i| *i.borrow_mut() = (vals, 0));
        OBS.with(|o| o.borrow_mut().clear());
        let h = harness::lookup(name).expect("harness");
        let r = std::panic::catch_unwind(h);
        let obs = OBS.with(|o| o.borrow().iter().map(|x| format!(" {}", x)).collect::<String>());
        match r {
            Ok(()) => println!("ok{}", obs),
            Err(e) => match e.downcast_ref::<Stop>() {
                Some(Stop::Check(id)) => println!("check {}{}", id, obs),
                Some(Stop::Assume) => println!("assume"),
                Some(Stop::Input) => println!("input"),
                None => PANIC.with(|p| println!("panic {}", p.borrow())),
            },
        }
        std::io::stdout().flush().unwrap();
    }
}
