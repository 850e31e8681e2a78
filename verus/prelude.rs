// ---------------------------------------------------------------------------------------------
// Prelude: the scalar, the assumed contracts of what is not extracted, and the spec functions.
// Everything marked external_body or assume_specification here is an assumption.
// ---------------------------------------------------------------------------------------------

// The scalar: an opaque value with a real number behind it (machine arithmetic as real arithmetic).
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct R { x: u64 }
impl R { pub uninterp spec fn v(self) -> real; }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmin(x: real, y: real) -> real { if x < y { x } else { y } }
pub open spec fn rmax(x: real, y: real) -> real { if x > y { x } else { y } }
pub uninterp spec fn EPS() -> real;
pub uninterp spec fn MAXR() -> real;
pub uninterp spec fn PIR() -> real;

macro_rules! op { ($tr:ident, $f:ident, $sp:ident, $ob:ident, $rq:ident, $s:ident, $o:tt) => { verus!{
impl vstd::std_specs::ops::$sp<R> for R {
    open spec fn $ob() -> bool { false }
    open spec fn $rq(self, o: R) -> bool { true }
    open spec fn $s(self, o: R) -> R { arbitrary() }
}
impl $tr for R { type Output = R;
  #[verifier::external_body]
  fn $f(self, o: R) -> (r: R) ensures r.v() == self.v() $o o.v() { unimplemented!() } }
}}}
op!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, +);
op!(Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, -);
op!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, *);
impl vstd::std_specs::ops::DivSpecImpl<R> for R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: R) -> bool { true }
    open spec fn div_spec(self, o: R) -> R { arbitrary() }
}
impl Div for R { type Output = R;
  #[verifier::external_body]
  fn div(self, o: R) -> (r: R) ensures o.v() != 0real ==> r.v() * o.v() == self.v() && r.v() == self.v() / o.v() { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for R {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> R { arbitrary() }
}
impl Neg for R { type Output = R;
  #[verifier::external_body]
  fn neg(self) -> (r: R) ensures r.v() == -self.v() { unimplemented!() } }
impl PartialEq for R {
  #[verifier::external_body]
  fn eq(&self, o: &R) -> (r: bool) ensures r == (self.v() == o.v()) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<R> for R {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &R) -> bool { self.v() == o.v() }
}
impl PartialOrd for R {
  #[verifier::external_body]
  fn partial_cmp(&self, o: &R) -> (r: Option<Ordering>) { unimplemented!() }
  #[verifier::external_body]
  fn lt(&self, o: &R) -> (r: bool) ensures r == (self.v() < o.v()) { unimplemented!() }
  #[verifier::external_body]
  fn gt(&self, o: &R) -> (r: bool) ensures r == (self.v() > o.v()) { unimplemented!() }
  #[verifier::external_body]
  fn le(&self, o: &R) -> (r: bool) ensures r == (self.v() <= o.v()) { unimplemented!() }
  #[verifier::external_body]
  fn ge(&self, o: &R) -> (r: bool) ensures r == (self.v() >= o.v()) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<R> for R {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &R) -> Option<Ordering> { if self.v() < o.v() { Some(Ordering::Less) } else if self.v() == o.v() { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl R {
  #[verifier::external_body] pub fn zero() -> (r: R) ensures r.v() == 0real { unimplemented!() }
  #[verifier::external_body] pub fn one() -> (r: R) ensures r.v() == 1real { unimplemented!() }
  #[verifier::external_body] pub fn two() -> (r: R) ensures r.v() == 2real { unimplemented!() }
  #[verifier::external_body] pub fn four() -> (r: R) ensures r.v() == 4real { unimplemented!() }
  #[verifier::external_body] pub fn pi() -> (r: R) ensures r.v() == PIR() { unimplemented!() }
  #[verifier::external_body] pub fn max_value() -> (r: R) ensures r.v() == MAXR() { unimplemented!() }
  #[verifier::external_body] pub fn fuzzy_epsilon() -> (r: R) ensures r.v() == EPS() { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (r: R) ensures r.v() == rabs(self.v()) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: R) ensures self.v() >= 0real ==> r.v() >= 0real && r.v() * r.v() == self.v() { unimplemented!() }
  #[verifier::external_body] pub fn min(self, o: R) -> (r: R) ensures r.v() == rmin(self.v(), o.v()) { unimplemented!() }
  #[verifier::external_body] pub fn max(self, o: R) -> (r: R) ensures r.v() == rmax(self.v(), o.v()) { unimplemented!() }
  // the comparison traits: their definition is proved by Kani at f64 and f32 (C25)
  #[verifier::external_body] pub fn fuzzy_eq(&self, o: R) -> (r: bool) ensures r == (rabs(self.v() - o.v()) < EPS()) { unimplemented!() }
  #[verifier::external_body] pub fn fuzzy_eq_eps(&self, o: R, e: R) -> (r: bool) ensures r == (rabs(self.v() - o.v()) < e.v()) { unimplemented!() }
  #[verifier::external_body] pub fn fuzzy_eq_zero(&self) -> (r: bool) ensures r == (rabs(self.v()) < EPS()) { unimplemented!() }
  #[verifier::external_body] pub fn fuzzy_eq_zero_eps(&self, e: R) -> (r: bool) ensures r == (rabs(self.v()) < e.v()) { unimplemented!() }
  #[verifier::external_body] pub fn fuzzy_lt(&self, o: R) -> (r: bool) ensures r == (self.v() < o.v() + EPS()) { unimplemented!() }
  #[verifier::external_body] pub fn fuzzy_lt_eps(&self, o: R, e: R) -> (r: bool) ensures r == (self.v() < o.v() + e.v()) { unimplemented!() }
}

// Operators of Vector2 (written by a macro in vector2.rs; proved by the contract `vectors` of sym/).
impl vstd::std_specs::ops::SubSpecImpl<Vector2> for Vector2 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: Vector2) -> bool { true }
    open spec fn sub_spec(self, o: Vector2) -> Vector2 { arbitrary() }
}
impl Sub for Vector2 { type Output = Vector2;
  #[verifier::external_body]
  fn sub(self, o: Vector2) -> (r: Vector2) ensures r.x.v() == self.x.v() - o.x.v(), r.y.v() == self.y.v() - o.y.v() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<Vector2> for Vector2 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: Vector2) -> bool { true }
    open spec fn add_spec(self, o: Vector2) -> Vector2 { arbitrary() }
}
impl Add for Vector2 { type Output = Vector2;
  #[verifier::external_body]
  fn add(self, o: Vector2) -> (r: Vector2) ensures r.x.v() == self.x.v() + o.x.v(), r.y.v() == self.y.v() + o.y.v() { unimplemented!() } }

// Boxes of the external crate.
#[derive(Clone, Copy)]
pub struct AABB { pub min_x: R, pub min_y: R, pub max_x: R, pub max_y: R }
impl AABB {
    pub fn new(min_x: R, min_y: R, max_x: R, max_y: R) -> (r: AABB)
        ensures r.min_x == min_x, r.min_y == min_y, r.max_x == max_x, r.max_y == max_y
    { AABB { min_x, min_y, max_x, max_y } }
}

// Iterators: the sequence of their items. The contracts of `iter_vertexes`, `iter_segments` and
// `iter_segment_indexes` below are proved by Kani by induction (C01); the adapters are those of std.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Iter<T> { p: core::marker::PhantomData<T> }
impl<T> Iter<T> {
    pub uninterp spec fn sq(&self) -> Seq<T>;
    #[verifier::external_body] pub fn item_count(&self) -> (n: usize) ensures n == self.sq().len() { unimplemented!() }
    #[verifier::external_body] pub fn item(&self, k: usize) -> (r: T) requires k < self.sq().len() ensures r == self.sq()[k as int] { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, k: usize) -> (r: Iter<T>)
        ensures r.sq() == (if k <= self.sq().len() { self.sq().subrange(k as int, self.sq().len() as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] pub fn take(self, k: usize) -> (r: Iter<T>)
        ensures r.sq() == (if k < self.sq().len() { self.sq().subrange(0, k as int) } else { self.sq() }) { unimplemented!() }
    #[verifier::external_body] pub fn chain(self, o: Iter<T>) -> (r: Iter<T>) ensures r.sq() == self.sq() + o.sq() { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: Iter<(usize, T)>)
        ensures r.sq() == Seq::new(self.sq().len(), |i: int| (i as usize, self.sq()[i])) { unimplemented!() }
    #[verifier::external_body] pub fn rev(self) -> (r: Iter<T>)
        ensures r.sq() == self.sq().reverse() { unimplemented!() }
    // `cycle` is only used for less than two rounds here: the sequence is given twice and never exhausted
    #[verifier::external_body] pub fn cycle(self) -> (r: Iter<T>)
        ensures self.sq().len() > 0 ==> r.sq().len() == 4 * self.sq().len(), forall|i: int| 0 <= i < r.sq().len() ==> #[trigger] r.sq()[i] == self.sq()[i % self.sq().len() as int] { unimplemented!() }
}

pub open spec fn segc(n: nat, c: bool) -> nat { if n < 2 { 0 } else if c { n } else { (n - 1) as nat } }
pub open spec fn nxt(n: nat, i: int) -> int { if i + 1 >= n { 0 } else { i + 1 } }
pub open spec fn segs(s: Seq<PlineVertex>, c: bool) -> Seq<(PlineVertex, PlineVertex)> {
    Seq::new(segc(s.len(), c), |i: int| (s[i], s[nxt(s.len(), i)]))
}
pub open spec fn seg_idx(n: nat, c: bool) -> Seq<(usize, usize)> {
    Seq::new(segc(n, c), |i: int| (i as usize, nxt(n, i) as usize))
}
pub const LIM: usize = 0x7fff_ffff_ffff_ffff;
// Vec never holds more than isize::MAX bytes
pub broadcast axiom fn vec_lim(v: Vec<PlineVertex>) ensures #[trigger] v@.len() <= LIM;
pub broadcast axiom fn src_lim(s: Src) ensures #[trigger] s.vs().len() <= LIM;

// A source of vertexes that is known by the contract of `PlineSource` only.
#[verifier::external_body]
pub struct Src { p: core::marker::PhantomData<u8> }
impl Src {
    pub uninterp spec fn vs(&self) -> Seq<PlineVertex>;
    pub uninterp spec fn cl(&self) -> bool;
    #[verifier::external_body] pub fn vertex_count(&self) -> (n: usize) ensures n == self.vs().len(), n <= LIM { unimplemented!() }
    #[verifier::external_body] pub fn is_closed(&self) -> (r: bool) ensures r == self.cl() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, index: usize) -> (r: Option<PlineVertex>)
        ensures r == (if index < self.vs().len() { Some(self.vs()[index as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, index: usize) -> (r: PlineVertex)
        requires index < self.vs().len() ensures r == self.vs()[index as int] { unimplemented!() }
    #[verifier::external_body] pub fn iter_vertexes(&self) -> (r: Iter<PlineVertex>) ensures r.sq() == self.vs() { unimplemented!() }
    #[verifier::external_body] pub fn iter_segments(&self) -> (r: Iter<(PlineVertex, PlineVertex)>) ensures r.sq() == segs(self.vs(), self.cl()) { unimplemented!() }
    #[verifier::external_body] pub fn iter_segment_indexes(&self) -> (r: Iter<(usize, usize)>) ensures r.sq() == seg_idx(self.vs().len(), self.cl()) { unimplemented!() }
}
// The library's polyline.
impl Polyline {
    pub open spec fn vs(&self) -> Seq<PlineVertex> { self.vertex_data@ }
    pub open spec fn cl(&self) -> bool { self.is_closed }
    #[verifier::external_body] pub fn iter_vertexes(&self) -> (r: Iter<PlineVertex>) ensures r.sq() == self.vs() { unimplemented!() }
    #[verifier::external_body] pub fn iter_segments(&self) -> (r: Iter<(PlineVertex, PlineVertex)>) ensures r.sq() == segs(self.vs(), self.cl()) { unimplemented!() }
    #[verifier::external_body] pub fn iter_segment_indexes(&self) -> (r: Iter<(usize, usize)>) ensures r.sq() == seg_idx(self.vs().len(), self.cl()) { unimplemented!() }
    // bodies of `from_iter` (collect) and `extend_vertexes` (Vec::extend) are std calls on iterators
    #[verifier::external_body] pub fn from_iter(iter: Iter<PlineVertex>, is_closed: bool) -> (r: Polyline) ensures r.vs() == iter.sq(), r.cl() == is_closed { unimplemented!() }
    #[verifier::external_body] pub fn extend_vertexes(&mut self, vertexes: Iter<PlineVertex>) ensures final(self).vs() == old(self).vs() + vertexes.sq(), final(self).cl() == old(self).cl() { unimplemented!() }
    #[verifier::external_body] pub fn reserve(&mut self, additional: usize) ensures final(self).vs() == old(self).vs(), final(self).cl() == old(self).cl() { unimplemented!() }
}
#[verifier::external_body]
pub fn opt_mut<T>(o: &mut Option<T>) -> (r: &mut T)
    requires old(o).is_some()
    ensures *r == old(o).unwrap(), *final(o) == Some(*final(r))
{ unimplemented!() }

pub struct ClosestPointResult { pub seg_start_index: usize, pub seg_point: Vector2, pub distance: R }
pub struct SplitResult { pub updated_start: PlineVertex, pub split_vertex: PlineVertex }

// Segment functions: proved for all segments by the contracts of sym/ named behind each.
pub uninterp spec fn seg_len(a: PlineVertex, b: PlineVertex) -> real;
#[verifier::external_body]  // arc_length_mid, line_length_mid
pub fn seg_length(v1: PlineVertex, v2: PlineVertex) -> (r: R) ensures r.v() == seg_len(v1, v2), r.v() >= 0real { unimplemented!() }
pub uninterp spec fn closest_s(a: PlineVertex, b: PlineVertex, p: Vector2, e: R) -> Vector2;
#[verifier::external_body]  // line_closest, arc_closest, arc_closest_center
pub fn seg_closest_point(v1: PlineVertex, v2: PlineVertex, point: Vector2, epsilon: R) -> (r: Vector2) ensures r == closest_s(v1, v2, point, epsilon) { unimplemented!() }
pub uninterp spec fn split_s(a: PlineVertex, b: PlineVertex, p: Vector2, e: R) -> SplitResult;
#[verifier::external_body]  // arc_split, split_ends, line_split
pub fn seg_split_at_point(v1: PlineVertex, v2: PlineVertex, point_on_seg: Vector2, pos_equal_eps: R) -> (r: SplitResult) ensures r == split_s(v1, v2, point_on_seg, pos_equal_eps) { unimplemented!() }
pub uninterp spec fn arc_box_s(a: PlineVertex, b: PlineVertex) -> AABB;
#[verifier::external_body]  // arc_box
pub fn arc_seg_bounding_box(v1: PlineVertex, v2: PlineVertex) -> (r: AABB)
    ensures r == arc_box_s(v1, v2),
        r.min_x.v() <= rmin(v1.x.v(), v2.x.v()), r.max_x.v() >= rmax(v1.x.v(), v2.x.v()),
        r.min_y.v() <= rmin(v1.y.v(), v2.y.v()), r.max_y.v() >= rmax(v1.y.v(), v2.y.v()),
{ unimplemented!() }
pub uninterp spec fn radius_s(a: PlineVertex, b: PlineVertex) -> R;
pub uninterp spec fn center_s(a: PlineVertex, b: PlineVertex) -> Vector2;
#[verifier::external_body]  // arc_radius_center, arc_center
pub fn seg_arc_radius_and_center(v1: PlineVertex, v2: PlineVertex) -> (r: (R, Vector2)) ensures r.0 == radius_s(v1, v2), r.1 == center_s(v1, v2) { unimplemented!() }
pub uninterp spec fn angle_s(a: Vector2, b: Vector2) -> real;
#[verifier::external_body]
pub fn angle(p0: Vector2, p1: Vector2) -> (r: R) ensures r.v() == angle_s(p0, p1) { unimplemented!() }
pub uninterp spec fn bulge_angle_s(b: real) -> real;
#[verifier::external_body]  // bulge_angle
pub fn angle_from_bulge(bulge: R) -> (r: R) ensures r.v() == bulge_angle_s(bulge.v()) { unimplemented!() }
pub uninterp spec fn circle_x(r: real, c: Vector2, a: real) -> real;
pub uninterp spec fn circle_y(r: real, c: Vector2, a: real) -> real;
#[verifier::external_body]  // circle_point
pub fn point_on_circle(radius: R, center: Vector2, angle: R) -> (r: Vector2) ensures r.x.v() == circle_x(radius.v(), center, angle.v()), r.y.v() == circle_y(radius.v(), center, angle.v()) { unimplemented!() }
#[verifier::external_body]
pub fn vec_get(v: &Vec<PlineVertex>, i: usize) -> (r: Option<PlineVertex>) ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }) { unimplemented!() }
// ---- arcs to lines
pub uninterp spec fn ceil_i(x: real) -> int;
pub uninterp spec fn acos_s(x: real) -> real;
pub uninterp spec fn delta_s(a: real, b: real) -> real;
impl R {
  #[verifier::external_body] pub fn ceil(self) -> (r: R) ensures r.v() == ceil_i(self.v()) as real, r.v() >= self.v(), r.v() < self.v() + 1real { unimplemented!() }
  // acos decreases from pi at -1 to 0 at 1
  #[verifier::external_body] pub fn acos(self) -> (r: R) ensures r.v() == acos_s(self.v()), -1real <= self.v() < 1real ==> r.v() > 0real { unimplemented!() }
  #[verifier::external_body] pub fn to_usize(&self) -> (r: Option<usize>) ensures r.is_some() ==> (forall|x: real| #[trigger] ceil_i(x) as real == self.v() ==> (r.unwrap() as int == ceil_i(x) || ceil_i(x) < 0 && r.unwrap() == 0)) { unimplemented!() }
  #[verifier::external_body] pub fn from(i: usize) -> (r: Option<R>) ensures r.is_some() ==> r.unwrap().v() == i as real { unimplemented!() }
}
#[verifier::external_body]  // delta
pub fn delta_angle(angle1: R, angle2: R) -> (r: R) ensures r.v() == delta_s(angle1.v(), angle2.v()) { unimplemented!() }
// ---- the external spatial index: the boxes it is built from. The number of boxes announced must be the number added.
#[verifier::external_body]
pub struct StaticAABB2DIndexBuilder { p: core::marker::PhantomData<u8> }
#[verifier::external_body]
pub struct StaticAABB2DIndex { p: core::marker::PhantomData<u8> }
impl StaticAABB2DIndex { pub uninterp spec fn boxes(&self) -> Seq<(R, R, R, R)>; }
impl StaticAABB2DIndexBuilder {
    pub uninterp spec fn boxes(&self) -> Seq<(R, R, R, R)>;
    pub uninterp spec fn announced(&self) -> nat;
    #[verifier::external_body] pub fn new(count: usize) -> (r: Self) ensures r.announced() == count, r.boxes().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, a: R, b: R, c: R, d: R)
        ensures final(self).announced() == old(self).announced(), final(self).boxes() == old(self).boxes().push((a, b, c, d)) { unimplemented!() }
}
#[verifier::external_body]
pub fn unwrap_spatial_index(builder: StaticAABB2DIndexBuilder) -> (r: StaticAABB2DIndex) requires builder.boxes().len() == builder.announced() ensures r.boxes() == builder.boxes() { unimplemented!() }
pub uninterp spec fn seg_box_s(a: PlineVertex, b: PlineVertex) -> AABB;
#[verifier::external_body]  // line_boxes, arc_box
pub fn seg_bounding_box(v1: PlineVertex, v2: PlineVertex) -> (r: AABB) ensures r == seg_box_s(v1, v2) { unimplemented!() }
pub uninterp spec fn fast_box_s(a: PlineVertex, b: PlineVertex) -> AABB;
#[verifier::external_body]  // line_boxes, fast_box
pub fn seg_fast_approx_bounding_box(v1: PlineVertex, v2: PlineVertex) -> (r: AABB) ensures r == fast_box_s(v1, v2) { unimplemented!() }
pub open spec fn tup(b: AABB) -> (R, R, R, R) { (b.min_x, b.min_y, b.max_x, b.max_y) }
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum PlineOrientation { Open, Clockwise, CounterClockwise }
pub broadcast axiom fn ceil_def(x: real) ensures x <= #[trigger] ceil_i(x) as real, (ceil_i(x) as real) < x + 1real;

// ---- intersects: the kinds of intersect of two segments (plain data of pline_seg_intersect.rs and pline_types.rs)
pub enum PlineSegIntr { NoIntersect, TangentIntersect { point: Vector2 }, OneIntersect { point: Vector2 }, TwoIntersects { point1: Vector2, point2: Vector2 },
    OverlappingLines { point1: Vector2, point2: Vector2 }, OverlappingArcs { point1: Vector2, point2: Vector2 } }
#[derive(Clone, Copy)]
pub struct PlineBasicIntersect { pub start_index1: usize, pub start_index2: usize, pub point: Vector2 }
impl PlineBasicIntersect { pub fn new(start_index1: usize, start_index2: usize, point: Vector2) -> (r: Self)
    ensures r == (PlineBasicIntersect { start_index1, start_index2, point }) { PlineBasicIntersect { start_index1, start_index2, point } } }
#[derive(Clone, Copy)]
pub struct PlineOverlappingIntersect { pub start_index1: usize, pub start_index2: usize, pub point1: Vector2, pub point2: Vector2 }
impl PlineOverlappingIntersect { pub fn new(start_index1: usize, start_index2: usize, point1: Vector2, point2: Vector2) -> (r: Self)
    ensures r == (PlineOverlappingIntersect { start_index1, start_index2, point1, point2 }) { PlineOverlappingIntersect { start_index1, start_index2, point1, point2 } } }
pub struct PlineIntersectsCollection { pub basic_intersects: Vec<PlineBasicIntersect>, pub overlapping_intersects: Vec<PlineOverlappingIntersect> }
impl PlineIntersectsCollection {
    pub fn new_empty() -> (r: Self) ensures r.basic_intersects@.len() == 0, r.overlapping_intersects@.len() == 0 { PlineIntersectsCollection { basic_intersects: Vec::new(), overlapping_intersects: Vec::new() } }
    pub fn new(basic_intersects: Vec<PlineBasicIntersect>, overlapping_intersects: Vec<PlineOverlappingIntersect>) -> (r: Self)
        ensures r.basic_intersects == basic_intersects, r.overlapping_intersects == overlapping_intersects { PlineIntersectsCollection { basic_intersects, overlapping_intersects } }
}
pub struct FindIntersectsOptions<'a> { pub pline1_aabb_index: Option<&'a StaticAABB2DIndex>, pub pos_equal_eps: R }
pub uninterp spec fn intr_s(v1: PlineVertex, v2: PlineVertex, u1: PlineVertex, u2: PlineVertex, e: R) -> PlineSegIntr;
#[verifier::external_body]  // ll_*, la_*, aa_* of sym/ (C08, C09)
pub fn pline_seg_intr(v1: PlineVertex, v2: PlineVertex, u1: PlineVertex, u2: PlineVertex, pos_equal_eps: R) -> (r: PlineSegIntr) ensures r == intr_s(v1, v2, u1, u2, pos_equal_eps) { unimplemented!() }
// std's hash set
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { p: core::marker::PhantomData<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn st(&self) -> Set<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.st() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.st() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self).st() == old(self).st().insert(x), r == !old(self).st().contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self.st().contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.st() == Set::<T>::empty()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_iter<T>(v: &Vec<T>) -> (r: Iter<&T>) ensures r.sq().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.sq()[i]) == v@[i] { unimplemented!() }
// ---- queries of the external spatial index: every box that touches the queried one is visited
pub open spec fn touch(b: (R, R, R, R), x0: real, y0: real, x1: real, y1: real) -> bool { b.0.v() <= x1 && b.1.v() <= y1 && b.2.v() >= x0 && b.3.v() >= y0 }
impl StaticAABB2DIndex {
    #[verifier::external_body] pub fn hits_iter(&self, x0: R, y0: R, x1: R, y1: R) -> (r: Iter<usize>)
        ensures forall|k: int| 0 <= k < r.sq().len() ==> (#[trigger] r.sq()[k]) < self.boxes().len(),
            forall|i: usize| 0 <= i < self.boxes().len() && touch(#[trigger] self.boxes()[i as int], x0.v(), y0.v(), x1.v(), y1.v()) ==> r.sq().contains(i) { unimplemented!() }
    // the indexes in the order of the tree, each with its box
    #[verifier::external_body] pub fn items(&self) -> (r: Iter<(usize, AABB)>)
        ensures r.sq().len() == self.boxes().len(), forall|k: int| 0 <= k < r.sq().len() ==> (#[trigger] r.sq()[k]).0 < self.boxes().len() && self.boxes()[r.sq()[k].0 as int] == tup(r.sq()[k].1),
            forall|i: usize| 0 <= i < self.boxes().len() ==> #[trigger] r.sq().contains((i, boxof(self.boxes()[i as int]))) { unimplemented!() }
}
pub open spec fn boxof(b: (R, R, R, R)) -> AABB { AABB { min_x: b.0, min_y: b.1, max_x: b.2, max_y: b.3 } }
// ---- a visitor known by the contract of `PlineIntersectVisitor` only: what it was given, and whether it asked to stop
pub enum Ev { B(PlineBasicIntersect), O(PlineOverlappingIntersect) }
#[verifier::external_body]
pub struct Vis { p: core::marker::PhantomData<u8> }
#[verifier::external_body]
pub struct Ctl { p: core::marker::PhantomData<u8> }
impl Ctl {
    pub uninterp spec fn brk(&self) -> bool;
    #[verifier::external_body] pub fn continuing() -> (r: Self) ensures !r.brk() { unimplemented!() }
    #[verifier::external_body] pub fn should_break(&self) -> (r: bool) ensures r == self.brk() { unimplemented!() }
}
impl Vis {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    pub uninterp spec fn stopped(&self) -> bool;
    // a visitor that asked to stop must not be called again
    #[verifier::external_body] pub fn visit_basic_intr(&mut self, intr: PlineBasicIntersect) -> (r: Ctl) requires !old(self).stopped()
        ensures final(self).log() == old(self).log().push(Ev::B(intr)), final(self).stopped() == r.brk() { unimplemented!() }
    #[verifier::external_body] pub fn visit_overlapping_intr(&mut self, intr: PlineOverlappingIntersect) -> (r: Ctl) requires !old(self).stopped()
        ensures final(self).log() == old(self).log().push(Ev::O(intr)), final(self).stopped() == r.brk() { unimplemented!() }
}
