//! P10: matrix multiplication equals the defining sum of products, for every rank rule, layout, scale
//! factor and output.
use core_mc::mmx::{mm, Job, Num, Run::*};
use core_mc::*;

matmul!(s_i, i64, DeviceCpuSerial);
matmul!(s_f, f64, DeviceCpuSerial);
matmul!(f_i, i64, DeviceFaer);
matmul!(f_f, f64, DeviceFaer);
matmul!(f_g, f32, DeviceFaer);
matmul!(f_z, Complex<f64>, DeviceFaer);

fn main() {
    fw::main("P10", |r| {
        r.bound("ranks 1..=4 on both sides; m, n, k in 0..=3 for rank <=2 and 1..=2 (with 0) under batches; batch extents 1, 2, 3 in every broadcastable and unbroadcastable combination; every layout of each operand and of the output within the stated deviations of contiguous (all pairs of operand layouts for ranks 1 and 2); scale factors (1,0) (2,0) (0,0) (1,1) (3,-2) (0,2) (-1,1); outputs filled with NaN where they are to be overwritten; outputs of every wrong shape of the right and neighbouring ranks; second operand a transposed or shifted view of the first one's storage; i64 (plain loops), f64, f32, Complex<f64> (faer) with small integers, so that equality is exact; sizes across the parallel switches (64; batches of more than 4 x threads)");
        r.assume("values are small integers, so that every summation order gives the same exact result");
        core_mc::mmx::suite(r, &|cx, run, row, j| match run {
            SerialI => s_i(cx, "serial", row, j, serial(row)),
            SerialF => s_f(cx, "serial", row, j, serial(row)),
            ParI(n) => f_i(cx, "faer", row, j, faer(row, n)),
            ParF(n) => f_f(cx, &if n == 2 { "faer".to_string() } else { format!("faer{n}") }, row, j, faer(row, n)),
            ParG(n) => f_g(cx, "faer", row, j, faer(row, n)),
            ParZ(n) => f_z(cx, "faer", row, j, faer(row, n)),
        });
    });
}
