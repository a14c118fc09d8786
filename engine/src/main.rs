mod cli;
mod core;
mod fmt;
mod gram;
mod ir;
mod lex;
mod parse;
mod print;
mod report;
mod stdlib;
mod tree;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: engine DUMPDIR GRAMMAR CLIENT...");
        std::process::exit(3);
    }
    let lib = ir::load(&format!("{}/mofmt-lib.json", a[1]));
    let mut out = vec![];
    for c in &a[3..] {
        out.push(match c.as_str() {
            "parse" => parse::run(&lib, &gram::load(&lib, &a[2])),
            "fmt" => fmt::run(
                &{
                    let mut l = ir::load(&format!("{}/mofmt-lib.json", a[1]));
                    l.patch_next_if();
                    l
                },
                &gram::load(&lib, &a[2]),
            ),
            "cli" => cli::run(&ir::load(&format!("{}/mofmt-bin.json", a[1]))),
            "print" => print::run(&lib),
            "tree" => tree::run(&lib),
            "lex" => lex::run(&lib, &std::fs::read_to_string(std::path::Path::new(&a[2]).with_file_name("lexis.txt")).expect("lexis.txt")),
            _ => {
                eprintln!("unknown client {c}");
                std::process::exit(3)
            }
        });
    }
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
}
