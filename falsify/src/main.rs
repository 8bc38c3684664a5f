//! Executable form of the contracts: runs the real, compiled code of /repo on
//! generated inputs and compares with independent oracles.  Used (a) to search
//! for a concrete failing input when a proof obligation fails, (b) as the
//! bounded stand-in for what the verifier cannot reach, and (c) to test the
//! contracts assumed for dependencies against their real implementation.
mod bvs;
mod egr;
mod infra;
mod pipe;
mod rules;
mod terms;
mod tl;

fn main() {
    infra::main_entry(|cx, prop| match prop {
        "C01" => bvs::c01(cx),
        "C02" => bvs::c02(cx),
        "C03" => bvs::c03(cx),
        "C04" => terms::c04(cx),
        "C05" => terms::c05(cx),
        "C06" => terms::c06(cx),
        "C07" => terms::c07(cx),
        "C08" => terms::c08(cx),
        "C09" => terms::c09(cx),
        "C10" => terms::c10(cx),
        "C11" => rules::c11(cx),
        "C12" => rules::c12(cx),
        "C13" => rules::c13(cx),
        "C14" => rules::c14(cx),
        "C15" => egr::c15(cx),
        "C16" => egr::c16(cx),
        "C17" => egr::c17(cx),
        "C18" => egr::c18(cx),
        "C19" => egr::c19(cx),
        "C20" => egr::c20(cx),
        "C21" => rules::c21(cx),
        "C22" => egr::c22(cx),
        "C23" => pipe::c23(cx),
        "C24" => pipe::c24(cx),
        "C25" => rules::c25(cx),
        "C26" => bvs::c26(cx),
        "C27" => egr::c27(cx),
        "C28" => pipe::c28(cx),
        _ => panic!("unknown property"),
    })
}
