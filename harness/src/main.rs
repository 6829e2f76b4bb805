#[cfg(feature = "rt")]
mod elf;
#[cfg(feature = "rt")]
mod exec;
#[cfg(feature = "exec")]
mod wexec;
mod engine;
mod ir;
mod gener;
mod interp;
#[cfg(feature = "exec")]
mod pipe;
mod props;
use engine::*;

fn spaces(prop: &str, tier: Tier) -> Option<(Vec<Space<'static>>, &'static [&'static str])> {
    Some(match prop {
        "C01" => (props::roundtrip::spaces(tier), &["locations are not part of the text format and are not compared"] as &[&str]),
        "C02" => (props::usedef::spaces(tier), &["operations on already-removed entities are outside the contract"]),
        "C03" => (props::convert::spaces(tier), &[]),
        "C04" => (props::optimize::spaces(tier), &["removing a dead operation that would trap is an allowed refinement and is not generated"]),
        "C05" => (props::structure::spaces(tier), &[]),
        "C06" => (props::callgraph::spaces(tier), &[]),
        "C07" => (props::passes::spaces(tier), &[]),
        #[cfg(feature = "exec")]
        "C08" => (props::native::spaces(tier), &["the reference interpreter fixes the meaning of the scalar operations; overflowing signed division and out-of-range float conversion trap"]),
        #[cfg(feature = "exec")]
        "C09" => (props::wasm::spaces(tier), &["the reference interpreter fixes the meaning of the scalar operations"]),
        #[cfg(feature = "exec")]
        "C10" => (props::data::native_spaces(tier), &["the reference interpreter fixes the meaning of the data operations"]),
        #[cfg(feature = "exec")]
        "C11" => (props::data::wasm_spaces(tier), &["the reference interpreter fixes the meaning of the data operations"]),
        #[cfg(feature = "exec")]
        "C21" => (props::console::spaces(tier), &["the host's read and write calls are the environment; line reading is not available on WebAssembly"]),
        #[cfg(feature = "exec")]
        "C18" => (props::data::reclaim_spaces(tier), &[]),
        #[cfg(feature = "exec")]
        "C12" => (props::data::rc_spaces(tier), &["objects that are never released are not counted as violations"]),
        #[cfg(feature = "exec")]
        "C13" => (props::bytes::spaces(tier), &["slices and out-of-range comparison are outside the contract on WebAssembly"]),
        #[cfg(feature = "exec")]
        "C14" => (props::effects::spaces(tier), &["the program is lowered to the IR shape the front end emits by the harness"]),
        #[cfg(feature = "rt")]
        "C15" => (props::runtime::evidence_spaces(tier), &["lookups of abilities that were never added are outside the contract"]),
        #[cfg(feature = "rt")]
        "C16" => (props::runtime::io_spaces(tier), &["read and write system calls are replaced by a scripted environment"]),
        #[cfg(feature = "rt")]
        "C17" => (props::runtime::bytes_spaces(tier), &["object headers follow the layout published by tribute-rc"]),
        "C20" => (props::convert::cast_spaces(tier), &[]),
        _ => return None,
    })
}

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let t = tier(&a[2]);
            let Some((sps, assume)) = spaces(&a[1], t) else { eprintln!("unknown property"); std::process::exit(2) };
            let mut rep = Report::new();
            for sp in &sps {
                run_space(&mut rep, sp);
                if rep.enough(&a[1], t) { break; }
            }
            std::process::exit(finish(&a[1], t, rep, assume, &sps));
        }
        Some("replay") => {
            let t = tier(&a[2]);
            let (sps, _) = spaces(&a[1], t).expect("property");
            let sp = sps.iter().find(|s| s.name == a[3]).expect("space");
            let i: usize = a[4].parse().unwrap();
            println!("--- case ---\n{}\n--- outcome ---", (sp.describe)(i));
            let st = Stats::new();
            match single(sp, i, &st, sp.limit * 3) {
                Single::Ok => println!("property holds on this case"),
                Single::Viol(v) => { println!("VIOLATED key={} {}", v.key, v.detail); std::process::exit(1) }
                Single::Crash(s) => { println!("CRASH signal {s}"); std::process::exit(1) }
                Single::Hang => { println!("HANG"); std::process::exit(1) }
            }
        }
        #[cfg(feature = "exec")]
        Some("native") => {
            let text = std::fs::read_to_string(&a[1]).unwrap();
            for o in 0..8 {
                match pipe::compile_native(&text, pipe::NativeOpts::from_bits(7 - o)) { Ok(b) => {
                    let n = exec::Native::load(&b).unwrap();
                    println!("opts {} {:?}", 7 - o, n.call("main", &[]));
                } Err(e) => println!("ERR {e}") }
            }
        }
        #[cfg(feature = "exec")]
        Some("dump") => {
            let text = std::fs::read_to_string(&a[2]).unwrap();
            let mut ctx = trunk_ir::IrContext::new();
            let m = pipe::parse(&mut ctx, &text).unwrap();
            let r = (|| { pipe::front(&mut ctx, m)?; if a[1] == "cps" { return Ok(()); } pipe::shared(&mut ctx, m)?; if a[1] == "shared" { return Ok(()); }
                if a[1] == "native" { pipe::native_target(&mut ctx, m)?; } else if a[1] == "wasm" { pipe::wasm_target(&mut ctx, m)?; }
                if a[1] == "clif" { pipe::native_target(&mut ctx, m)?; pipe::prepare_native(&mut ctx, m, false, pipe::NativeOpts::PROD)?; } Ok::<(), String>(()) })();
            println!("{}\n{r:?}", trunk_ir::printer::print_module(&ctx, m.op()));
        }
        #[cfg(feature = "exec")]
        Some("wdump") => {
            let b = std::fs::read(&a[1]).unwrap();
            for p in wasmparser::Parser::new(0).parse_all(&b) {
                match p.unwrap() {
                    wasmparser::Payload::TypeSection(r) => for (i, t) in r.into_iter().enumerate() { println!("group {i} {:?}", t.unwrap()); },
                    wasmparser::Payload::FunctionSection(r) => for (i, t) in r.into_iter().enumerate() { println!("func {i} type {}", t.unwrap()); },
                    wasmparser::Payload::CodeSectionEntry(f) => {
                        println!("code");
                        for l in f.get_locals_reader().unwrap() { println!("  local {:?}", l.unwrap()); }
                        for o in f.get_operators_reader().unwrap() { println!("  {:?}", o.unwrap()); }
                    }
                    _ => {}
                }
            }
        }
        #[cfg(feature = "exec")]
        Some("wasm") => {
            let text = std::fs::read_to_string(&a[1]).unwrap();
            match pipe::compile_wasm(&text) { Ok(b) => { std::fs::write(&a[2], &b).unwrap(); println!("ok {}", b.len()) } Err(e) => println!("ERR {e}") }
        }
        _ => { eprintln!("usage: mc check PROP TIER | mc replay PROP TIER SPACE IDX"); std::process::exit(2) }
    }
}
