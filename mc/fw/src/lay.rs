//! Enumeration of strided memory layouts: axis order in memory, steps, flips, broadcast axes,
//! gaps between rows, start offset and trailing slack.

use crate::nd::*;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lay {
    pub shape: Vec<usize>,
    pub stride: Vec<isize>,
    pub offset: usize,
    /// length of the buffer the layout lives in
    pub len: usize,
}

impl std::fmt::Debug for Lay {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}s{:?}+{}/{}", self.shape, self.stride, self.offset, self.len)
    }
}

impl Lay {
    pub fn at(&self, idx: &[usize]) -> usize {
        let mut p = self.offset as isize;
        for (i, s) in idx.iter().zip(&self.stride) {
            p += *i as isize * s;
        }
        p as usize
    }
    pub fn ndim(&self) -> usize {
        self.shape.len()
    }
    pub fn size(&self) -> usize {
        prod(&self.shape)
    }
    pub fn has_bcast(&self) -> bool {
        self.size() > 0 && self.shape.iter().zip(&self.stride).any(|(d, s)| *d > 1 && *s == 0)
    }
    pub fn nd<T: Clone>(&self, raw: &[T]) -> Nd<T> {
        Nd::from_fn(&self.shape, |i| raw[self.at(i)].clone())
    }
    /// all buffer positions, row-major logical order
    pub fn positions(&self) -> Vec<usize> {
        let mut v = vec![];
        each_index(&self.shape, |i| v.push(self.at(i)));
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Axis {
    pub step: usize,
    pub flip: bool,
    pub bcast: bool,
    pub pad: usize,
}

pub const PLAIN: Axis = Axis { step: 1, flip: false, bcast: false, pad: 0 };
pub const STEP: Axis = Axis { step: 2, flip: false, bcast: false, pad: 0 };
pub const FLIP: Axis = Axis { step: 1, flip: true, bcast: false, pad: 0 };
pub const FLIPSTEP: Axis = Axis { step: 2, flip: true, bcast: false, pad: 0 };
pub const BCAST: Axis = Axis { step: 1, flip: false, bcast: true, pad: 0 };
pub const PAD: Axis = Axis { step: 1, flip: false, bcast: false, pad: 1 };

/// order: axes from fastest to slowest in memory
pub fn build(shape: &[usize], order: &[usize], axes: &[Axis], off: usize, tail: usize) -> Lay {
    let n = shape.len();
    let mut stride = vec![0isize; n];
    let mut cur = 1usize;
    let mut lo = 0isize;
    let mut hi = 0isize;
    for &k in order {
        let d = shape[k];
        let a = axes[k];
        if a.bcast {
            stride[k] = 0;
            continue;
        }
        let s = (cur * a.step) as isize;
        let ext = d.max(1) - 1;
        stride[k] = if a.flip { -s } else { s };
        if a.flip {
            lo -= ext as isize * s;
        } else {
            hi += ext as isize * s;
        }
        cur *= ext * a.step + 1 + a.pad;
    }
    let offset = (off as isize - lo) as usize;
    let size = prod(shape);
    let max = (offset as isize + hi) as usize;
    let len = if size == 0 { offset } else { max + 1 } + tail;
    Lay { shape: shape.to_vec(), stride, offset, len }
}

pub fn c_contig(shape: &[usize]) -> Lay {
    let order: Vec<usize> = (0..shape.len()).rev().collect();
    build(shape, &order, &vec![PLAIN; shape.len()], 0, 0)
}
pub fn f_contig(shape: &[usize]) -> Lay {
    let order: Vec<usize> = (0..shape.len()).collect();
    build(shape, &order, &vec![PLAIN; shape.len()], 0, 0)
}

fn dedup(mut v: Vec<Lay>) -> Vec<Lay> {
    let mut seen = std::collections::HashSet::new();
    v.retain(|l| seen.insert(l.clone()));
    v
}

/// Full product: every memory order of the axes x every axis kind x both offsets.
pub fn layouts_full(shape: &[usize], kinds: &[Axis]) -> Vec<Lay> {
    let n = shape.len();
    let mut out = vec![];
    for perm in permutations(n).iter().rev() {
        for ks in words(kinds, n) {
            for (off, tail) in [(0, 0), (3, 2)] {
                out.push(build(shape, perm, &ks, off, tail));
            }
        }
    }
    dedup(out)
}

/// Everything within `k` deviations of the plain row-major layout. One deviation is: another memory
/// order of the axes, a non-plain kind on one axis, or a non-zero offset with trailing slack.
pub fn layouts_dev(shape: &[usize], kinds: &[Axis], k: usize) -> Vec<Lay> {
    let n = shape.len();
    let mut out = vec![];
    for perm in permutations(n).iter().rev() {
        let c0 = usize::from(perm.iter().rev().enumerate().any(|(i, &p)| i != p));
        for m in 0..1usize << n {
            let c1 = c0 + m.count_ones() as usize;
            if c1 > k {
                continue;
            }
            let dev: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
            for ks in words(&kinds[1..], dev.len()) {
                let mut ax = vec![kinds[0]; n];
                for (i, d) in dev.iter().enumerate() {
                    ax[*d] = ks[i];
                }
                out.push(build(shape, perm, &ax, 0, 0));
                if c1 < k {
                    out.push(build(shape, perm, &ax, 3, 2));
                }
            }
        }
    }
    dedup(out)
}

pub const ALL_KINDS: [Axis; 6] = [PLAIN, STEP, FLIP, FLIPSTEP, BCAST, PAD];
pub const NOB_KINDS: [Axis; 5] = [PLAIN, STEP, FLIP, FLIPSTEP, PAD];
