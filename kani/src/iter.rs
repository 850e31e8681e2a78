//! C01: the iterators by induction over the number of items given out, for every vertex count.
//! Inv(k) describes the state after k items; each harness assumes Inv(k) for an arbitrary k, takes one
//! step and checks the item and Inv(k + 1). `iterator_init` is the base case.
use crate::index::*;
use cavalier_contours::polyline::*;

fn seg_inv(s: &Src, k: usize, st: (usize, bool)) -> bool {
    let m = segments(s);
    if s.n < 2 {
        st == (0, true)
    } else if s.closed {
        if k < m {
            st == (k, false)
        } else {
            st == (s.n - 1, true)
        }
    } else {
        st == (k, false)
    }
}
fn idx_inv(s: &Src, k: usize, st: (usize, usize, bool)) -> bool {
    let m = segments(s);
    st.2 == s.closed && st.1 == m - k && (st.0 == k || (s.closed && k == m && m > 0 && st.0 == k - 1))
}
#[kani::proof]
fn iterator_init() {
    let s = any_src();
    assert!(s.iter_vertexes().kani_state() == (0, s.n), "vertex iterator: first state");
    assert!(seg_inv(&s, 0, s.iter_segments().kani_state()), "segment iterator: first state");
    assert!(idx_inv(&s, 0, s.iter_segment_indexes().kani_state()), "index iterator: first state");
}
#[kani::proof]
fn vertex_iterator_step() {
    let s = any_src();
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    kani::assume(a <= b && b <= s.n);
    let mut it = VertexIter::kani_new(&s, a, b);
    assert!(it.size_hint() == (b - a, Some(b - a)) && it.len() == b - a, "remaining count");
    let back: bool = kani::any();
    let v = if back { it.next_back() } else { it.next() };
    if a == b {
        assert!(v.is_none() && it.kani_state() == (a, b), "an ended iterator stays ended");
    } else if back {
        assert!(is_vertex(v.unwrap(), b - 1) && it.kani_state() == (a, b - 1), "next vertex from the back");
    } else {
        assert!(is_vertex(v.unwrap(), a) && it.kani_state() == (a + 1, b), "next vertex");
    }
}
#[kani::proof]
fn segment_iterator_step() {
    let s = any_src();
    let k: usize = kani::any();
    let st: (usize, bool) = (kani::any(), kani::any());
    let m = segments(&s);
    kani::assume(k <= m && seg_inv(&s, k, st));
    let mut it = SegmentIter::kani_new(&s, st.0, st.1);
    assert!(it.size_hint() == (m - k, Some(m - k)) && it.len() == m - k, "remaining count");
    let r = it.next();
    if k == m {
        assert!(r.is_none() && seg_inv(&s, m, it.kani_state()), "an ended iterator stays ended");
    } else {
        let (a, b) = r.unwrap();
        assert!(is_vertex(a, k) && is_vertex(b, if k == s.n - 1 { 0 } else { k + 1 }), "next segment");
        assert!(seg_inv(&s, k + 1, it.kani_state()), "state after the segment");
    }
}
#[kani::proof]
fn index_iterator_step() {
    let s = any_src();
    let k: usize = kani::any();
    let st: (usize, usize, bool) = (kani::any(), kani::any(), kani::any());
    let m = segments(&s);
    kani::assume(k <= m && idx_inv(&s, k, st));
    let mut it = PlineSegIndexIterator::kani_new(st.0, st.1, st.2);
    assert!(it.size_hint() == (m - k, Some(m - k)), "remaining count");
    let r = it.next();
    if k == m {
        assert!(r.is_none() && idx_inv(&s, m, it.kani_state()), "an ended iterator stays ended");
    } else {
        assert!(r == Some((k, if k == s.n - 1 { 0 } else { k + 1 })), "next index pair");
        assert!(idx_inv(&s, k + 1, it.kani_state()), "state after the index pair");
    }
}
