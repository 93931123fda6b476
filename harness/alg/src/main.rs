mod c01;
mod c02;
mod c03;
mod common;

fn main() {
    vpbt::run_main(vec![c01::property(), c02::property(), c03::property()]);
}
