use crate::cx::Cx;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c07;
mod c08;
mod c10;
mod c11;
mod c14;
mod c16;
mod c18;
mod c19;
mod c22;
mod c23;
mod c25;

pub fn run(cx: &mut Cx) {
    match cx.prop.clone().as_str() {
        "C01" => c01::run(cx),
        "C02" => c02::run(cx),
        "C03" => c03::run(cx),
        "C04" => c04::run(cx),
        "C05" => c05::run05(cx),
        "C06" => c05::run06(cx),
        "C07" => c07::run(cx),
        "C08" => c08::run08(cx),
        "C09" => c08::run09(cx),
        "C10" => {
            c10::run(cx);
            c23::run10_wire(cx);
        }
        "C11" => c11::run11(cx),
        "C12" => c11::run12(cx),
        "C13" => c11::run13(cx),
        "C14" => c14::run14(cx),
        "C15" => c14::run15(cx),
        "C16" => c16::run16_(cx),
        "C17" => c16::run17(cx),
        "C18" => c18::run18(cx),
        "C19" => c19::run(cx),
        "C20" => c18::run20(cx),
        "C21" => c18::run21(cx),
        "C22" => c22::run22(cx),
        "C25" => c25::run25(cx),
        "C26" => c22::run26(cx),
        "C23" => c23::run23(cx),
        p => panic!("unknown property {}", p),
    }
}

/// Entry point of helper processes (fresh address space, fresh global state).
pub fn child(args: &[String]) -> i32 {
    match args[0].as_str() {
        "c01" => c01::child(&args[1..]),
        "c11" => c11::child(&args[1..]),
        "c24" => c25::child24(&args[1..]),
        "c09" => c08::child(&args[1..]),
        p => panic!("unknown child {}", p),
    }
}
