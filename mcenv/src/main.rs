#[path = "../../mc/src/catalog.rs"]
#[allow(dead_code)]
mod catalog;
#[path = "../../mc/src/fw.rs"]
#[allow(dead_code)]
mod fw;
#[path = "../../mc/src/rt.rs"]
#[allow(dead_code)]
mod rt;
mod c_prelude;
mod shim;

fn main() {
    fw::main_with(&[("C29", c_prelude::c29)]);
}
