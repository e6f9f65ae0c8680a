mod amounts;
mod names;
mod bench;
mod c01;
mod c02;
mod c04;
mod c05;
mod c08;
mod c09;
mod c11;
mod c12;
mod c16;
mod clock;
mod c19;
mod c20;
mod c23;
mod c24;
mod c25;
mod fsx;
mod inst;
mod rnd;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = args.get(2).map(|s| s.as_str()).unwrap_or("quick");
    let code = match prop {
        "bench" => bench::run(),
        "C01" => c01::run(tier),
        "C02" => c02::run(tier),
        "C03" => inst::run_c03(tier),
        "C04" => c04::run(tier),
        "C05" => c05::run(tier),
        "C08" => c08::run(tier),
        "C09" => c09::run_c09(tier),
        "C10" => c09::run_c10(tier),
        "C11" => c11::run(tier),
        "C12" => c12::run_c12(tier),
        "C13" => c12::run_c13(tier),
        "C16" => c16::run(tier),
        "C19" => c19::run(tier),
        "C20" => c20::run(tier),
        "C23" => c23::run(tier),
        "C25" => c25::run(tier),
        "C24" => c24::run(tier),
        "C21" => inst::run_c21(tier),
        "C02-child" => c02::child(tier),
        _ => {
            eprintln!("unknown property {prop}");
            2
        }
    };
    std::process::exit(code);
}
