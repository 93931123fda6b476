mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod common;

fn main() {
    vpbt::run_main(vec![c04::property(), c05::property(), c06::property(), c07::property(), c08::property()]);
}
