//! C01: index arithmetic for every vertex count. The source below has any number of vertexes and its
//! vertexes are their indexes, so that the functions of PlineSource are checked without a bound.
use cavalier_contours::polyline::*;

pub struct Src {
    pub n: usize,
    pub closed: bool,
}
pub fn vertex(i: usize) -> PlineVertex<f64> {
    PlineVertex::new(f64::from_bits(i as u64), f64::from_bits(!(i as u64)), f64::from_bits(7 ^ i as u64))
}
pub fn is_vertex(v: PlineVertex<f64>, i: usize) -> bool {
    v.x.to_bits() == i as u64 && v.y.to_bits() == !(i as u64) && v.bulge.to_bits() == 7 ^ i as u64
}
impl PlineSource for Src {
    type Num = f64;
    type OutputPolyline = Polyline<f64>;
    fn vertex_count(&self) -> usize {
        self.n
    }
    fn is_closed(&self) -> bool {
        self.closed
    }
    fn get(&self, i: usize) -> Option<PlineVertex<f64>> {
        if i < self.n {
            Some(vertex(i))
        } else {
            None
        }
    }
    fn at(&self, i: usize) -> PlineVertex<f64> {
        assert!(i < self.n, "vertex index in range");
        vertex(i)
    }
}
/// requires: a vertex count a polyline can have (memory is limited to isize::MAX bytes)
pub fn any_src() -> Src {
    let s = Src { n: kani::any(), closed: kani::any() };
    kani::assume(s.n <= isize::MAX as usize / std::mem::size_of::<PlineVertex<f64>>());
    s
}
pub fn segments(s: &Src) -> usize {
    match s.n {
        0 | 1 => 0,
        n if s.closed => n,
        n => n - 1,
    }
}

#[kani::proof]
fn wrapping_neighbours() {
    let s = any_src();
    let i: usize = kani::any();
    kani::assume(i < s.n);
    let (a, b) = (s.next_wrapping_index(i), s.prev_wrapping_index(i));
    assert!(a < s.n && b < s.n, "neighbour indexes are in range");
    assert!(a == if i == s.n - 1 { 0 } else { i + 1 }, "next index");
    assert!(b == if i == 0 { s.n - 1 } else { i - 1 }, "previous index");
    assert!(s.prev_wrapping_index(a) == i && s.next_wrapping_index(b) == i, "next and previous are inverse");
}
#[kani::proof]
fn wrapping_distance() {
    let s = any_src();
    let (i, j, o): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(i < s.n && j < s.n && o <= s.n);
    let d = s.fwd_wrapping_dist(i, j);
    assert!(d < s.n, "distance is less than the vertex count");
    assert!((d == 0) == (i == j), "distance is zero for the same index only");
    assert!(s.fwd_wrapping_index(i, d) == j, "the index at the distance");
    let k = s.fwd_wrapping_index(i, o);
    assert!(k < s.n, "offset index is in range");
    if o < s.n {
        assert!(s.fwd_wrapping_dist(i, k) == o, "distance of the offset index");
        assert!(s.fwd_wrapping_index(i, o + 1) == s.next_wrapping_index(k), "one more is the next index");
    } else {
        assert!(k == i, "a full turn");
    }
    assert!(s.fwd_wrapping_index(i, 0) == i, "offset zero");
}
#[kani::proof]
fn segment_count() {
    let s = any_src();
    assert!(s.segment_count() == segments(&s), "segment count");
    assert!(s.is_empty() == (s.n == 0), "is_empty");
    if s.n > 0 {
        assert!(is_vertex(s.last().unwrap(), s.n - 1), "last vertex");
    }
}
#[kani::proof]
fn iterators_start() {
    let s = any_src();
    assert!(s.iter_vertexes().len() == s.n, "length of the vertex iterator");
    assert!(s.iter_segments().len() == segments(&s), "length of the segment iterator");
    assert!(s.iter_segment_indexes().size_hint() == (segments(&s), Some(segments(&s))), "length of the index iterator");
    let (f, l) = (s.iter_vertexes().next(), s.iter_vertexes().next_back());
    assert!(f.is_some() == (s.n > 0) && l.is_some() == (s.n > 0), "vertex iterator is empty only for no vertexes");
    if s.n > 0 {
        assert!(is_vertex(f.unwrap(), 0) && is_vertex(l.unwrap(), s.n - 1), "first and last vertex");
    }
    let (g, p) = (s.iter_segments().next(), s.iter_segment_indexes().next());
    assert!(g.is_some() == (segments(&s) > 0) && p.is_some() == (segments(&s) > 0), "segment iterators are empty only for no segments");
    if let (Some((a, b)), Some((x, y))) = (g, p) {
        assert!(is_vertex(a, 0) && is_vertex(b, 1) && x == 0 && y == 1, "first segment");
    }
}
/// bounded: at most 5 vertexes, complete traversals
#[kani::proof]
#[kani::unwind(8)]
fn iterators_bounded() {
    let s = any_src();
    kani::assume(s.n <= 5);
    let mut i = 0;
    for v in s.iter_vertexes() {
        assert!(i < s.n && is_vertex(v, i), "vertexes in order");
        i += 1;
    }
    assert!(i == s.n, "every vertex once");
    let mut k = 0;
    let mut it = s.iter_segments();
    let mut ix = s.iter_segment_indexes();
    loop {
        let left = segments(&s) - k;
        assert!(it.size_hint() == (left, Some(left)) && ix.size_hint() == (left, Some(left)), "remaining count");
        match (it.next(), ix.next()) {
            (Some((a, b)), Some((x, y))) => {
                assert!(k < segments(&s), "no segment beyond the count");
                assert!(x == k && y == (k + 1) % s.n, "index pairs in order");
                assert!(is_vertex(a, x) && is_vertex(b, y), "segments in order");
                k += 1;
            }
            (None, None) => break,
            _ => assert!(false, "the segment iterators end together"),
        }
    }
    assert!(k == segments(&s), "every segment once");
}
