mod cost;
mod crypto;
mod dict;
mod doc;
mod event;
mod fw;
mod msg;
mod path;
mod pre;
mod gen;
mod hist;
mod prim;
mod pure;
mod refcesr;
mod thold;
mod typed;
mod wipe;

#[global_allocator]
static ALLOC: wipe::Watching = wipe::Watching;

use std::path::{Path, PathBuf};

fn subs(id: &str) -> Option<Vec<fw::Sub>> {
    Some(match id {
        "C01" => prim::c01(),
        "C02" => prim::c02_subs(),
        "C03" => prim::c03_subs(),
        "C04" => typed::c04_subs(),
        "C08" => typed::c08_subs(),
        "C09" => typed::c09_subs(),
        "C10" => typed::c10_subs(),
        "C11" => typed::c11_subs(),
        "C12" => crypto::c12_subs(),
        "C13" => crypto::c13_subs(),
        "C14" => crypto::c14_subs(),
        "C15" => crypto::c15_subs(),
        "C16" => crypto::c16_subs(),
        "C17" => wipe::c17_subs(),
        "C18" => thold::c18_subs(),
        "C19" => thold::c19_subs(),
        "C05" => prim::c05_subs(),
        "C06" => prim::c06_subs(),
        "C07" => prim::c07_subs(),
        "C20" => event::c20_subs(),
        "C21" => event::c21_subs(),
        "C22" => event::c22_subs(),
        "C23" => event::c23_subs(),
        "C28" => event::c28_subs(),
        "C25" => pre::c25_subs(),
        "C26" => path::c26_subs(),
        "C30" => msg::c30_subs(),
        "C24" => doc::c24_subs(),
        "C27" => doc::c27_subs(),
        "C29" => prim::c29_subs(),
        "C31" => hist::c31_subs(),
        "C32" => pure::c32_subs(),
        "C33" => pure::c33_subs(),
        "C34" => cost::c34_subs(),
        _ => return None,
    })
}

fn main() {
    // errors are the common case here: no backtraces
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    fw::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root: PathBuf = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf());
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[1..] {
        ["check", id] => fw::supervise(id, &root),
        ["check-inner", id] => match subs(id) {
            Some(s) => fw::run_check(id, s, &root),
            None => {
                eprintln!("ERROR: no check {id}");
                2
            }
        },
        ["dict"] => {
            print!("{}", dict::dump());
            0
        }
        ["ops"] => match pure::serve() {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("ERROR: {e}");
                2
            }
        },
        ["replay", id, file] => match subs(id).ok_or(format!("no check {id}")).and_then(|s| fw::replay_file(&s, Path::new(file))) {
            Ok((name, Ok(()))) => {
                println!("{name}: holds");
                0
            }
            Ok((name, Err(m))) => {
                println!("  {name}: {m}");
                println!("VIOLATION property={id} replay={file}");
                1
            }
            Err(e) => {
                eprintln!("ERROR: {e}");
                2
            }
        },
        _ => {
            eprintln!("usage: harness check ID | replay ID FILE");
            2
        }
    };
    std::process::exit(code);
}
