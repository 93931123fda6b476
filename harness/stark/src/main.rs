mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod chain;
mod expr;
mod proto;
mod sys;

fn main() {
    vpbt::run_main(vec![
        c18::property(),
        c19::property(),
        c20::property(),
        c21::property(),
        c22::property(),
        c23::property(),
        c24::property(),
        c25::property(),
        c26::property(),
        c27::property(),
        c28::property(),
        c29::property(),
        c30::property(),
    ]);
}
