#![allow(mismatched_lifetime_syntaxes)]
mod ctx;
mod dbg;
mod desc;
mod de;
#[cfg(feature = "derive")]
mod derive;
mod drv;
mod drops;
mod err;
mod ext;
mod fwd;
#[cfg(feature = "derive")]
mod gen;
mod json;
mod model;
mod path;
mod ser;
use ctx::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: harness PROPERTY quick|thorough SEED [TRACEFILE]");
        std::process::exit(2);
    }
    let mut c = Ctx::new(&a[1], &a[2], a[3].parse().unwrap(), a.get(4).map(|s| s.as_str()));
    // deep recursion of the reference parser must not depend on the main stack
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            match c.prop.clone().as_str() {
                "C01" => json::c01(&mut c),
                "C02" => json::c02(&mut c),
                "C03" => json::c03(&mut c),
                "C04" => json::c04(&mut c),
                "C05" => json::c05(&mut c),
                "C06" => json::c06(&mut c),
                "C07" => json::c07(&mut c),
                "C08" => json::c08(&mut c),
                "C09" => de::c09(&mut c),
                "C10" => de::c10(&mut c),
                "C11" => de::c11(&mut c),
                "C12" => de::c12(&mut c),
                "C13" => de::c13(&mut c),
                "C14" => { fwd::c14(&mut c); de::c14(&mut c) }
                "C19" => de::c19(&mut c),
                "C20" => de::c20(&mut c),
                "C15" => ser::c15(&mut c),
                "C16" => ser::c16(&mut c),
                "C17" => ser::c17(&mut c),
                "C27" => ser::c27(&mut c),
                "C28" => dbg::c28(&mut c),
                "C31" => ext::c31(&mut c),
                "C32" => desc::c32(&mut c),
                "C33" => err::c33(&mut c),
                "C34" => drops::c34(&mut c),
                "C18" => drv::c18(&mut c),
                "C21" => path::c21(&mut c),
                "C22" => path::c22(&mut c),
                #[cfg(feature = "derive")]
                "C23" => derive::c23(&mut c),
                #[cfg(feature = "derive")]
                "C24" => derive::c24(&mut c),
                #[cfg(feature = "derive")]
                "C25" => derive::c25(&mut c),
                #[cfg(feature = "derive")]
                "C26" => derive::c26(&mut c),
                p => {
                    eprintln!("no harness for {}", p);
                    std::process::exit(2);
                }
            }
            println!("REPORT {}", c.report());
            if c.fails.is_empty() { 0 } else { 1 }
        })
        .unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
