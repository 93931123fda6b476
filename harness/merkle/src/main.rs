mod c12;
mod c13;
mod c14;
mod common;

fn main() {
    vpbt::run_main(vec![c12::property(), c13::property(), c14::property()]);
}
