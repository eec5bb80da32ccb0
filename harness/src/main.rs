use figcheck::{checks, core};

fn main() {
    core::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let props = checks::all();
            match props.iter().find(|p| p.id == args[1]) {
                Some(p) => core::run(p),
                None => { eprintln!("unknown property {}", args[1]); 2 }
            }
        }
        Some("worker") => core::big_stack(move || {
            let props = checks::all();
            let p = props.iter().find(|p| p.id == args[1]).expect("property");
            core::worker(p, &args[1..])
        }),
        Some(cmd @ ("replay" | "replay-quiet")) => {
            let quiet = cmd == "replay-quiet";
            core::big_stack(move || {
                let props = checks::all();
                let scratch = core::scratch_dir(&format!("figreplay-{}", std::process::id())).unwrap();
                let r = core::replay_file(&props, std::path::Path::new(&args[1]), &scratch);
                let _ = std::fs::remove_dir_all(&scratch);
                match r {
                    Ok(Ok(())) => { if !quiet { println!("holds") } 0 }
                    Ok(Err(m)) => { if !quiet { println!("fails: {m}") } 1 }
                    Err(e) => { eprintln!("{e}"); 2 }
                }
            })
        }
        Some("remote") => core::serve(std::path::Path::new(&args[1]), checks::remote),
        Some("list") => { for p in checks::all() { println!("{}", p.id) } 0 }
        _ => { eprintln!("usage: figcheck run ID | replay FILE | list"); 2 }
    };
    std::process::exit(code)
}
