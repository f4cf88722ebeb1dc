#[macro_use]
mod fw;
mod e2e;
mod p_addr;
mod p_cli;
mod gen;
mod p_client;
mod p_codec;
mod p_crypto;
mod p_fs;
mod p_event;
mod p_net;
mod p_ops;
mod p_proc;
mod p_schema;
mod p_small;
mod p_stop;
mod p_util;
mod p_wire;
mod wirekit;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let c = match id.as_str() {
        "C01" => p_wire::c01(),
        "C02" => p_wire::c02(p_net::c02_live()),
        "C03" => p_wire::c03(),
        "C04" => p_wire::c04(p_net::c04_live()),
        "C05" => p_crypto::c05(),
        "C06" => p_crypto::c06(p_net::c06_live()),
        "C08" => p_crypto::c08(),
        "C07" => p_wire::c07(p_net::c07_live()),
        "C09" => p_net::c09(),
        "C10" => p_net::c10(),
        "C11" => p_net::c11(),
        "C12" => p_fs::c12(),
        "C13" => p_fs::c13(),
        "C14" => p_fs::c14(),
        "C15" => p_proc::c15(),
        "C16" => p_proc::c16(),
        "C17" => p_ops::c17(),
        "C18" => p_ops::c18(),
        "C19" => p_ops::c19(),
        "C20" => p_client::c20(),
        "C21" => p_util::c21(),
        "C22" => p_small::c22(),
        "C23" => p_codec::c23(),
        "C24" => p_cli::c24(),
        "C25" => p_schema::c25(),
        "C26" => p_addr::c26(),
        "C28" => p_stop::c28(),
        "C27" => p_event::c27(),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    };
    std::process::exit(fw::main_for(&id, c, &args[2..]));
}
