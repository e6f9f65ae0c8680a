mod c06;
mod c07;
mod c14;
mod c15;
mod c17;
mod c18;
mod mem;
mod lin;
mod rnd;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = args.get(2).map(|s| s.as_str()).unwrap_or("quick");
    let code = match prop {
        "C06" => c06::run(tier),
        "C15" => c15::run(tier),
        "C17" => c17::run(tier),
        "C18" => c18::run(tier),
        "C14" => c14::run(tier),
        "C07" => c07::run(tier),
        _ => {
            eprintln!("unknown property {prop}");
            2
        }
    };
    std::process::exit(code);
}
