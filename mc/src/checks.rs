use crate::engine::*;

pub fn run(prop: &str, r: &mut Runner) -> bool
{
    match prop {
        "B01" => crate::b::b01(r),
        "B02" => crate::b::b02(r),
        "B03" => crate::b::b03(r),
        "D01" => crate::dec::d01(r),
        "D02" => crate::dec::d02(r),
        "D03" => crate::dec::d03(r),
        "D04" => crate::dec::d04(r),
        "D05" => crate::dec::d05(r),
        "D06" => crate::dec::d06(r),
        "D07" => crate::dec::d07(r),
        "D08" => crate::d08::d08(r),
        "D09" => crate::d09::d09(r),
        "E01" => crate::enc::e01(r),
        "E02" => crate::enc::e02(r),
        "E03" => crate::enc::e03(r),
        "H01" => crate::h01::h01(r),
        "L01" => crate::l01::l01(r),
        "P01" => crate::p01::p01(r),
        "P02" => crate::p02::p02(r),
        "P03" => crate::p03::p03(r),
        "P04" => crate::p04::p04(r),
        "P05" => crate::p05::p05(r),
        "P06" => crate::p06::p06(r),
        "P07" => crate::p07::p07(r),
        _ => return false,
    }
    true
}
