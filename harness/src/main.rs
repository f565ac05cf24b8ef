mod checks;
mod conv;
mod notation;
mod pdb;
mod phys;
mod selftest;
#[macro_use]
mod util;

use util::*;

fn main() {
    START.set(std::time::Instant::now()).unwrap();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("child") {
        checks::child(&args[2..]);
        return;
    }
    selftest::self_test();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(check) = checks::find(&id) else {
        eprintln!("unknown check {id:?}");
        std::process::exit(2);
    };
    std::env::remove_var("NO_COLOR");
    install_panic_hook();
    set_current_id(&id);
    let worker = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn({
            let id = id.clone();
            move || {
                let r = std::panic::catch_unwind(|| {
                    let mut ctx = Ctx::new(&id);
                    check(&mut ctx);
                    ctx.finish();
                });
                if r.is_err() {
                    let (loc, msg) = take_last_panic();
                    if is_harness_location(&loc) && !msg.starts_with("VIOL:") {
                        eprintln!("ERROR of check {id}: panic at {loc}: {msg}");
                        std::process::exit(2);
                    }
                    report_violation(&id, &format!("unexpected panic at {loc}: {msg}"));
                    std::process::exit(1);
                }
            }
        })
        .unwrap();
    while !worker.is_finished() {
        std::thread::sleep(std::time::Duration::from_millis(200));
        watchdog_tick();
    }
    eprintln!("ERROR: the check's thread ended without an answer");
    std::process::exit(2);
}
