#[path = "../../mc/src/catalog.rs"]
#[allow(dead_code)]
mod catalog;
#[path = "../../mc/src/fw.rs"]
#[allow(dead_code)]
mod fw;
#[path = "../../mc/src/term.rs"]
#[allow(dead_code)]
mod term;
#[path = "../../mc/src/rt.rs"]
#[allow(dead_code)]
mod rt;
mod c_ops;
mod terms;

fn main() {
    fw::main_with(&[("C03", c_ops::c03)]);
}
