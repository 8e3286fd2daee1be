//! The boring reference model: an n-dimensional array is a shape plus a row-major list of values.

#[derive(Clone, PartialEq)]
pub struct Nd<T> {
    pub shape: Vec<usize>,
    pub data: Vec<T>,
}

impl<T: std::fmt::Debug> std::fmt::Debug for Nd<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.data.len() <= 64 {
            write!(f, "{:?}{:?}", self.shape, self.data)
        } else {
            write!(f, "{:?}{:?}..({} elements)", self.shape, &self.data[..64], self.data.len())
        }
    }
}

/// Visit every multi-index of `shape` in row-major order (last axis fastest).
pub fn each_index(shape: &[usize], mut f: impl FnMut(&[usize])) {
    if shape.iter().any(|&d| d == 0) {
        return;
    }
    let n = shape.len();
    let mut idx = vec![0usize; n];
    loop {
        f(&idx);
        let mut k = n;
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < shape[k] {
                break;
            }
            idx[k] = 0;
        }
    }
}

/// Same in column-major order (first axis fastest).
pub fn each_index_col(shape: &[usize], mut f: impl FnMut(&[usize])) {
    let rev: Vec<usize> = shape.iter().rev().copied().collect();
    let mut buf = vec![0usize; shape.len()];
    each_index(&rev, |i| {
        for (k, v) in i.iter().rev().enumerate() {
            buf[k] = *v;
        }
        f(&buf)
    })
}

pub fn prod(shape: &[usize]) -> usize {
    shape.iter().product()
}

/// Row-major position of an index.
pub fn pos(shape: &[usize], idx: &[usize]) -> usize {
    let mut p = 0;
    for (d, i) in shape.iter().zip(idx) {
        debug_assert!(i < d);
        p = p * d + i;
    }
    p
}

impl<T: Clone> Nd<T> {
    pub fn from_fn(shape: &[usize], mut f: impl FnMut(&[usize]) -> T) -> Self {
        let mut data = Vec::with_capacity(prod(shape));
        each_index(shape, |i| data.push(f(i)));
        Nd { shape: shape.to_vec(), data }
    }
    pub fn new(shape: &[usize], data: Vec<T>) -> Self {
        assert_eq!(prod(shape), data.len());
        Nd { shape: shape.to_vec(), data }
    }
    pub fn ndim(&self) -> usize {
        self.shape.len()
    }
    pub fn size(&self) -> usize {
        prod(&self.shape)
    }
    pub fn at(&self, idx: &[usize]) -> &T {
        &self.data[pos(&self.shape, idx)]
    }
    pub fn at_mut(&mut self, idx: &[usize]) -> &mut T {
        let p = pos(&self.shape, idx);
        &mut self.data[p]
    }
    pub fn map<U: Clone>(&self, f: impl FnMut(&T) -> U) -> Nd<U> {
        Nd { shape: self.shape.clone(), data: self.data.iter().map(f).collect() }
    }
    /// result[i0,i1,..] where axis k of the result is axis perm[k] of self
    pub fn permute(&self, perm: &[usize]) -> Nd<T> {
        let shape: Vec<usize> = perm.iter().map(|&p| self.shape[p]).collect();
        let mut src = vec![0; perm.len()];
        Nd::from_fn(&shape, |i| {
            for (k, &p) in perm.iter().enumerate() {
                src[p] = i[k];
            }
            self.at(&src).clone()
        })
    }
    pub fn t(&self) -> Nd<T> {
        let perm: Vec<usize> = (0..self.ndim()).rev().collect();
        self.permute(&perm)
    }
    pub fn flip(&self, ax: usize) -> Nd<T> {
        let mut src = vec![0; self.ndim()];
        Nd::from_fn(&self.shape, |i| {
            src.copy_from_slice(i);
            src[ax] = self.shape[ax] - 1 - i[ax];
            self.at(&src).clone()
        })
    }
    /// values listed in column-major order
    pub fn col_data(&self) -> Vec<T> {
        let mut v = Vec::with_capacity(self.data.len());
        each_index_col(&self.shape, |i| v.push(self.at(i).clone()));
        v
    }
    pub fn from_col(shape: &[usize], data: &[T]) -> Self {
        let rev: Vec<usize> = shape.iter().rev().copied().collect();
        Nd::new(&rev, data.to_vec()).t()
    }
    /// values in the order the given convention lists them
    pub fn ordered(&self, row: bool) -> Vec<T> {
        if row {
            self.data.clone()
        } else {
            self.col_data()
        }
    }
    pub fn from_ordered(shape: &[usize], data: Vec<T>, row: bool) -> Self {
        if row {
            Nd::new(shape, data)
        } else {
            Nd::from_col(shape, &data)
        }
    }
    pub fn reshape(&self, shape: &[usize], row: bool) -> Self {
        Nd::from_ordered(shape, self.ordered(row), row)
    }
    /// Broadcast to `shape`; row: align trailing axes, col: align leading axes.
    pub fn broadcast(&self, shape: &[usize], row: bool) -> Option<Nd<T>> {
        if self.ndim() > shape.len() {
            return None;
        }
        let shift = if row { shape.len() - self.ndim() } else { 0 };
        for k in 0..self.ndim() {
            if self.shape[k] != 1 && self.shape[k] != shape[k + shift] {
                return None;
            }
        }
        let mut src = vec![0; self.ndim()];
        Some(Nd::from_fn(shape, |i| {
            for k in 0..self.ndim() {
                src[k] = if self.shape[k] == 1 { 0 } else { i[k + shift] };
            }
            self.at(&src).clone()
        }))
    }
}

/// The broadcast of two shapes, or None. row: numpy rule (align right), col: align left.
pub fn bshape(a: &[usize], b: &[usize], row: bool) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let ext = |s: &[usize]| -> Vec<usize> {
        let mut v = s.to_vec();
        while v.len() < n {
            if row {
                v.insert(0, 1)
            } else {
                v.push(1)
            }
        }
        v
    };
    let (a, b) = (ext(a), ext(b));
    let mut out = vec![];
    for (x, y) in a.iter().zip(&b) {
        out.push(if x == y {
            *x
        } else if *x == 1 {
            *y
        } else if *y == 1 {
            *x
        } else {
            return None;
        });
    }
    Some(out)
}

pub fn zip_b<A: Clone, B: Clone, C: Clone>(a: &Nd<A>, b: &Nd<B>, row: bool, mut f: impl FnMut(&A, &B) -> C) -> Option<Nd<C>> {
    let s = bshape(&a.shape, &b.shape, row)?;
    let x = a.broadcast(&s, row)?;
    let y = b.broadcast(&s, row)?;
    Some(Nd { shape: s, data: x.data.iter().zip(&y.data).map(|(p, q)| f(p, q)).collect() })
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(rest: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if rest.is_empty() {
            out.push(cur.clone());
            return;
        }
        for k in 0..rest.len() {
            let v = rest.remove(k);
            cur.push(v);
            rec(rest, cur, out);
            cur.pop();
            rest.insert(k, v);
        }
    }
    let mut out = vec![];
    rec(&mut (0..n).collect(), &mut vec![], &mut out);
    out
}

/// all vectors of length n over the alphabet
pub fn words<T: Clone>(alpha: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut nxt = Vec::with_capacity(out.len() * alpha.len());
        for w in &out {
            for a in alpha {
                let mut w2: Vec<T> = w.clone();
                w2.push(a.clone());
                nxt.push(w2);
            }
        }
        out = nxt;
    }
    out
}

/// every shape with lo..=hi axes and extents drawn from `sizes`
pub fn shapes(lo: usize, hi: usize, sizes: &[usize]) -> Vec<Vec<usize>> {
    (lo..=hi).flat_map(|n| words(sizes, n)).collect()
}

/// all subsets of 0..n, as sorted lists, smallest first
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0..1usize << n).map(|m| (0..n).filter(|k| m >> k & 1 == 1).collect()).collect();
    v.sort_by_key(|s: &Vec<usize>| s.len());
    v
}
