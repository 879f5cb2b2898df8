#![allow(non_snake_case)]
mod core1;
mod core2;
mod core3;
mod core4;
mod core5;
mod gadgets;
mod circ;
mod g1;
mod g2;
mod g3;
mod g4;
mod g5;
mod g6;
mod f;
mod prog;
mod refimpl;
mod rt;

pub fn describe(id: &str) -> String {
    let v: serde_json::Value = serde_json::from_str(include_str!("../desc.json")).unwrap_or_default();
    v[id].as_str().unwrap_or("").to_string()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: mc <Cxx> quick|thorough <root>");
        std::process::exit(2);
    }
    rt::install_panic_hook();
    let ctx = rt::Ctx::new(&a[1], a[2] == "thorough", &a[3]);
    let run = || match a[1].as_str() {
        "C01" => core1::c01(&ctx),
        "C02" => core1::c02(&ctx),
        "C03" => core1::c03(&ctx),
        "C04" => core1::c04(&ctx),
        "C21" => core3::c21(&ctx),
        "C22" => core3::c22(&ctx),
        "C25" => core3::c25(&ctx),
        "C05" => core2::c05(&ctx),
        "C06" => core2::c06(&ctx),
        "C07" => core2::c07(&ctx),
        "C09" => core2::c09(&ctx),
        "C10" => core2::c10(&ctx),
        "C08" => core1::c08(&ctx),
        "C11" => g1::c11(&ctx),
        "C12" => g1::c12(&ctx),
        "C13" => g1::c13(&ctx),
        "C14" => g1::c14(&ctx),
        "C15" => g1::c15(&ctx),
        "C16" => g2::c16(&ctx),
        "C17" => g3::c17(&ctx),
        "C19" => g4::c19(&ctx),
        "C20" => g4::c20(&ctx),
        "C23" => g5::c23(&ctx),
        "C24" => g5::c24(&ctx),
        "C26" => core4::c26(&ctx),
        "C27" => core5::c27(&ctx),
        "C18" => g3::c18(&ctx),
        "C28" => g6::c28(&ctx),
        x => {
            eprintln!("unknown property {}", x);
            std::process::exit(2);
        }
    };
    if let Err(e) = rt::guard(run) {
        ctx.viol("panic", e);
    }
    std::process::exit(ctx.finish());
}
