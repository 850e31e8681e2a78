"""Contracts of the extracted functions: requires, ensures, loop invariants.

In loop texts: $i counter, $n number of items, $s item sequence, $m0 the first `let mut` variable of the function, ...
"""
SPEC = r'''
pub open spec fn near(a: Vector2, b: Vector2, e: real) -> bool { rabs(a.x.v() - b.x.v()) < e && rabs(a.y.v() - b.y.v()) < e }
pub open spec fn ps(a: PlineVertex) -> Vector2 { Vector2 { x: a.x, y: a.y } }
pub open spec fn wb(a: PlineVertex, b: R) -> PlineVertex { PlineVertex { x: a.x, y: a.y, bulge: b } }
pub open spec fn is_line(a: PlineVertex) -> bool { rabs(a.bulge.v()) < EPS() }

// ---- path length
pub open spec fn sum_len(s: Seq<(PlineVertex, PlineVertex)>, k: int) -> real decreases k {
    if k <= 0 { 0real } else { sum_len(s, k - 1) + seg_len(s[k - 1].0, s[k - 1].1) }
}
// ---- area: shoelace term and circular segment of every segment
pub open spec fn seg_area2(a: PlineVertex, b: PlineVertex, chord: real) -> real {
    a.x.v() * b.y.v() - a.y.v() * b.x.v() + if is_line(a) { 0real } else {
        let m = rabs(a.bulge.v());
        let radius = chord * ((m * m + 1real) / (4real * m));
        let cap = bulge_angle_s(m) * radius * radius - chord * (radius - m * chord / 2real);
        if a.bulge.v() < 0real { -cap } else { cap }
    }
}
pub open spec fn chord2(a: PlineVertex, b: PlineVertex) -> real {
    (b.x.v() - a.x.v()) * (b.x.v() - a.x.v()) + (b.y.v() - a.y.v()) * (b.y.v() - a.y.v())
}
pub uninterp spec fn root(x: real) -> real;
pub broadcast axiom fn root_def(x: real)
    requires x >= 0real
    ensures #[trigger] root(x) >= 0real, root(x) * root(x) == x;
pub proof fn root_unique(r: real, x: real)
    requires r >= 0real, r * r == x
    ensures r == root(x)
{
    assert(x >= 0real) by(nonlinear_arith) requires r * r == x;
    root_def(x);
    let q = root(x);
    assert(r == q) by(nonlinear_arith) requires r >= 0real, q >= 0real, r * r == q * q;
}
pub proof fn root_only(x: real)
    requires x >= 0real
    ensures forall|q: R| #![trigger q.v()] q.v() >= 0real && q.v() * q.v() == x ==> q.v() == root(x), root(x) >= 0real, root(x) * root(x) == x
{
    root_def(x);
    assert forall|q: R| #![trigger q.v()] q.v() >= 0real && q.v() * q.v() == x implies q.v() == root(x) by { root_unique(q.v(), x); }
}
pub open spec fn sum_area2(s: Seq<(PlineVertex, PlineVertex)>, k: int) -> real decreases k {
    if k <= 0 { 0real } else { sum_area2(s, k - 1) + seg_area2(s[k - 1].0, s[k - 1].1, root(chord2(s[k - 1].0, s[k - 1].1))) }
}
// ---- boxes
pub open spec fn sx0(a: PlineVertex, b: PlineVertex) -> real { if is_line(a) { rmin(a.x.v(), b.x.v()) } else { arc_box_s(a, b).min_x.v() } }
pub open spec fn sx1(a: PlineVertex, b: PlineVertex) -> real { if is_line(a) { rmax(a.x.v(), b.x.v()) } else { arc_box_s(a, b).max_x.v() } }
pub open spec fn sy0(a: PlineVertex, b: PlineVertex) -> real { if is_line(a) { rmin(a.y.v(), b.y.v()) } else { arc_box_s(a, b).min_y.v() } }
pub open spec fn sy1(a: PlineVertex, b: PlineVertex) -> real { if is_line(a) { rmax(a.y.v(), b.y.v()) } else { arc_box_s(a, b).max_y.v() } }
pub open spec fn bx0(s: Seq<(PlineVertex, PlineVertex)>, k: int) -> real decreases k { if k <= 0 { s[0].0.x.v() } else { rmin(bx0(s, k - 1), sx0(s[k - 1].0, s[k - 1].1)) } }
pub open spec fn bx1(s: Seq<(PlineVertex, PlineVertex)>, k: int) -> real decreases k { if k <= 0 { s[0].0.x.v() } else { rmax(bx1(s, k - 1), sx1(s[k - 1].0, s[k - 1].1)) } }
pub open spec fn by0(s: Seq<(PlineVertex, PlineVertex)>, k: int) -> real decreases k { if k <= 0 { s[0].0.y.v() } else { rmin(by0(s, k - 1), sy0(s[k - 1].0, s[k - 1].1)) } }
pub open spec fn by1(s: Seq<(PlineVertex, PlineVertex)>, k: int) -> real decreases k { if k <= 0 { s[0].0.y.v() } else { rmax(by1(s, k - 1), sy1(s[k - 1].0, s[k - 1].1)) } }
// ---- closest point
pub open spec fn dist2(p: Vector2, q: Vector2) -> real { (p.x.v() - q.x.v()) * (p.x.v() - q.x.v()) + (p.y.v() - q.y.v()) * (p.y.v() - q.y.v()) }
pub open spec fn seg_dist2(s: Seq<PlineVertex>, i: int, p: Vector2, e: R) -> real { dist2(p, closest_s(s[i], s[nxt(s.len(), i)], p, e)) }
// ---- winding number: what each segment contributes
pub open spec fn left_of(a: PlineVertex, b: PlineVertex, p: Vector2) -> real {
    (b.x.v() - a.x.v()) * (p.y.v() - a.y.v()) - (b.y.v() - a.y.v()) * (p.x.v() - a.x.v())
}
pub open spec fn line_turns(a: PlineVertex, b: PlineVertex, p: Vector2) -> int {
    if a.y.v() <= p.y.v() && p.y.v() < b.y.v() && left_of(a, b, p) > 0real { 1 }
    else if b.y.v() <= p.y.v() && p.y.v() < a.y.v() && left_of(a, b, p) <= 0real { -1 }
    else { 0 }
}
pub uninterp spec fn arc_turns(a: PlineVertex, b: PlineVertex, p: Vector2) -> int;
#[verifier::external_body]  // winding_arcs
pub fn arc_winding(v1: PlineVertex, v2: PlineVertex, point: Vector2) -> (r: i32) ensures r == arc_turns(v1, v2, point), -1 <= r <= 1 { unimplemented!() }
pub open spec fn seg_turns(a: PlineVertex, b: PlineVertex, p: Vector2) -> int { if is_line(a) { line_turns(a, b, p) } else { arc_turns(a, b, p) } }
pub open spec fn sum_turns(s: Seq<(PlineVertex, PlineVertex)>, p: Vector2, k: int) -> int decreases k {
    if k <= 0 { 0 } else { sum_turns(s, p, k - 1) + seg_turns(s[k - 1].0, s[k - 1].1, p) }
}
// ---- merging of repeat positions
pub open spec fn merge(s: Seq<PlineVertex>, v: PlineVertex, e: real) -> Seq<PlineVertex> {
    if s.len() > 0 && near(ps(s.last()), ps(v), e) { s.update(s.len() - 1, wb(s.last(), v.bulge)) } else { s.push(v) }
}
#[verifier::opaque]
pub open spec fn merges(b: Seq<PlineVertex>, s: Seq<PlineVertex>, e: real, k: int) -> Seq<PlineVertex> decreases k {
    if k <= 0 { b } else { merge(merges(b, s, e, k - 1), s[k - 1], e) }
}
// the vertexes at the end that repeat the first one
pub open spec fn close(s: Seq<PlineVertex>, e: real) -> Seq<PlineVertex> decreases s.len() {
    if s.len() >= 2 && near(ps(s.last()), ps(s[0]), e) { close(s.drop_last(), e) } else { s }
}
pub open spec fn no_repeats(s: Seq<PlineVertex>, e: real) -> bool {
    forall|i: int| 0 <= i < s.len() - 1 ==> !near(ps(#[trigger] s[i]), ps(s[i + 1]), e)
}
pub proof fn merge_ok(s: Seq<PlineVertex>, v: PlineVertex, e: real)
    requires no_repeats(s, e)
    ensures no_repeats(merge(s, v, e), e), merge(s, v, e).len() > 0,
            s.len() > 0 ==> ps(merge(s, v, e)[0]) == ps(s[0]),
            s.len() <= merge(s, v, e).len() <= s.len() + 1,
{
    let m = merge(s, v, e);
    assert forall|i: int| 0 <= i < m.len() - 1 implies !near(ps(#[trigger] m[i]), ps(m[i + 1]), e) by {
        if i < s.len() - 1 { assert(!near(ps(s[i]), ps(s[i + 1]), e)); }
    }
}
pub proof fn merges_ok(b: Seq<PlineVertex>, s: Seq<PlineVertex>, e: real, k: int)
    requires no_repeats(b, e), 0 <= k <= s.len()
    ensures no_repeats(merges(b, s, e, k), e), k > 0 ==> merges(b, s, e, k).len() > 0,
        b.len() <= merges(b, s, e, k).len() <= b.len() + k,
        b.len() == 0 && k > 0 ==> ps(merges(b, s, e, k)[0]) == ps(s[0]),
    decreases k
{
    reveal(merges);
    if k > 0 { merges_ok(b, s, e, k - 1); merge_ok(merges(b, s, e, k - 1), s[k - 1], e); }
}
pub proof fn close_ok(s: Seq<PlineVertex>, e: real)
    requires no_repeats(s, e)
    ensures no_repeats(close(s, e), e), close(s, e).len() <= s.len(), s.len() > 0 ==> close(s, e).len() > 0,
        close(s, e) == s.subrange(0, close(s, e).len() as int),
        close(s, e).len() >= 2 ==> !near(ps(close(s, e).last()), ps(close(s, e)[0]), e),
    decreases s.len()
{
    if s.len() >= 2 && near(ps(s.last()), ps(s[0]), e) {
        assert(no_repeats(s.drop_last(), e)) by {
            assert forall|i: int| 0 <= i < s.drop_last().len() - 1 implies !near(ps(#[trigger] s.drop_last()[i]), ps(s.drop_last()[i + 1]), e) by {
                assert(!near(ps(s[i]), ps(s[i + 1]), e));
            }
        }
        close_ok(s.drop_last(), e);
    } else { assert(s == s.subrange(0, s.len() as int)); }
}
pub proof fn merges_zero(b: Seq<PlineVertex>, s: Seq<PlineVertex>, e: real) ensures merges(b, s, e, 0) == b { reveal(merges); }
pub proof fn merges_step(b: Seq<PlineVertex>, s: Seq<PlineVertex>, e: real, k: int)
    requires 0 <= k < s.len()
    ensures merges(b, s, e, k + 1) == merge(merges(b, s, e, k), s[k], e)
{ reveal(merges); }
pub proof fn merges_first(s: Seq<PlineVertex>, e: real)
    requires s.len() > 0
    ensures merges(Seq::empty(), s, e, 1) == seq![s[0]]
{
    merges_zero(Seq::empty(), s, e); merges_step(Seq::empty(), s, e, 0);
    assert(merges(Seq::empty(), s, e, 1) =~= seq![s[0]]);
}
pub open spec fn rot(s: Seq<PlineVertex>, k: int) -> Seq<PlineVertex> { s.subrange(k, s.len() as int) + s.subrange(0, k) }
// ---- views: the curve from updated_start to end_point, and its inverse
pub open spec fn wrap(n: nat, i: int) -> int { if i < n { i } else { i - n } }
pub open spec fn view_ok(d: PlineViewData, s: Seq<PlineVertex>, c: bool) -> bool {
    s.len() >= 2 && d.start_index < s.len() && d.end_index_offset <= s.len() && (!c ==> d.start_index + d.end_index_offset < s.len())
    && (d.end_index_offset == 0 ==> d.updated_end_bulge == d.updated_start.bulge)
}
pub open spec fn forward(d: PlineViewData, s: Seq<PlineVertex>, i: int) -> PlineVertex {
    if i == 0 { d.updated_start }
    else if i < d.end_index_offset { s[wrap(s.len(), d.start_index + i)] }
    else if i == d.end_index_offset { wb(s[wrap(s.len(), d.start_index + i)], d.updated_end_bulge) }
    else { PlineVertex { x: d.end_point.x, y: d.end_point.y, bulge: d.updated_start.bulge } }
}
pub open spec fn traverse(n: nat, c: bool, st: int, en: int, seg: Vector2, p: Vector2, q: Vector2, e: real) -> int {
    let d = if st <= en { en - st } else { n - st + en };
    if d == 0 && c && !near(p, q, e) && dist2(seg, p) >= dist2(seg, q) { n as int } else { d }
}
pub open spec fn adjusted(s: Seq<PlineVertex>, c: bool, p: Vector2, i: int, j: int, e: real) -> int {
    if (c || i < j) && near(ps(s[nxt(s.len(), i)]), p, e) { nxt(s.len(), i) } else { i }
}
pub proof fn part_bound(a: PlineVertex, b: PlineVertex, e: real)
    requires e > 0real, !kept(a, b, e), EPS() > 0real, chord_sweep(a, b, e) > 0real
    ensures rabs(part(a, b, e)) <= chord_sweep(a, b, e)
{
    let sw = sweep_s(a, b); let sub = chord_sweep(a, b, e); let n = chords(a, b, e) as real;
    ceil_def(sw / sub);
    chord_bound(sw, sub, n);
    assert(rabs(part(a, b, e)) == sw / n) by(nonlinear_arith) requires sw >= 0real, n >= 1real, part(a, b, e) == sw / n || part(a, b, e) == -sw / n;
}
// ---- arcs to lines
pub open spec fn a0(a: PlineVertex, b: PlineVertex) -> real { angle_s(center_s(a, b), ps(a)) }
pub open spec fn sweep_s(a: PlineVertex, b: PlineVertex) -> real { rabs(delta_s(a0(a, b), angle_s(center_s(a, b), ps(b)))) }
pub open spec fn kept(a: PlineVertex, b: PlineVertex, e: real) -> bool { is_line(a) || radius_s(a, b).v() < e + EPS() }
// the sweep of a chord that deviates by e
pub open spec fn chord_sweep(a: PlineVertex, b: PlineVertex, e: real) -> real { 2real * rabs(acos_s(1real - rabs(e) / radius_s(a, b).v())) }
pub open spec fn chords(a: PlineVertex, b: PlineVertex, e: real) -> int {
    if kept(a, b, e) { 1 } else { let n = ceil_i(sweep_s(a, b) / chord_sweep(a, b, e)); if n < 1 { 1 } else { n } }
}
pub open spec fn chord_start(s: Seq<(PlineVertex, PlineVertex)>, e: real, k: int) -> int decreases k {
    if k <= 0 { 0 } else { chord_start(s, e, k - 1) + chords(s[k - 1].0, s[k - 1].1, e) }
}
// the signed sweep of one chord: all parts of an arc are equal
pub open spec fn part(a: PlineVertex, b: PlineVertex, e: real) -> real {
    (if a.bulge.v() < 0real { -sweep_s(a, b) } else { sweep_s(a, b) }) / (chords(a, b, e) as real)
}
pub open spec fn on_arc(v: PlineVertex, a: PlineVertex, b: PlineVertex, e: real, j: int) -> bool {
    v.bulge.v() == 0real && v.x.v() == circle_x(radius_s(a, b).v(), center_s(a, b), (j as real) * part(a, b, e) + a0(a, b))
    && v.y.v() == circle_y(radius_s(a, b).v(), center_s(a, b), (j as real) * part(a, b, e) + a0(a, b))
}
pub open spec fn approx(r: Seq<PlineVertex>, s: Seq<(PlineVertex, PlineVertex)>, e: real, k: int) -> bool decreases k {
    k <= 0 || ({ let st = chord_start(s, e, k - 1); let a = s[k - 1].0; let b = s[k - 1].1; let n = chords(a, b, e);
        approx(r, s, e, k - 1) && st + n <= r.len() && st >= 0
        && (if is_line(a) { r[st] == a } else { ps(r[st]) == ps(a) && r[st].bulge.v() == 0real })
        && (forall|j: int| 0 < j < n ==> #[trigger] on_arc(r[st + j], a, b, e, j)) })
}
pub broadcast proof fn approx_push(r: Seq<PlineVertex>, v: PlineVertex, s: Seq<(PlineVertex, PlineVertex)>, e: real, k: int)
    requires approx(r, s, e, k), 0 <= k <= s.len()
    ensures #[trigger] approx(r.push(v), s, e, k)
    decreases k
{
    if k > 0 {
        approx_push(r, v, s, e, k - 1);
        let q = r.push(v);
        let st = chord_start(s, e, k - 1); let a = s[k - 1].0; let b = s[k - 1].1; let n = chords(a, b, e);
        assert(q[st] == r[st]);
        assert forall|j: int| 0 < j < n implies #[trigger] on_arc(q[st + j], a, b, e, j) by { assert(on_arc(r[st + j], a, b, e, j)); assert(q[st + j] == r[st + j]); }
    }
}
pub broadcast proof fn approx_one(r: Seq<PlineVertex>, v: PlineVertex, s: Seq<(PlineVertex, PlineVertex)>, e: real, m: int)
    requires 0 < m <= s.len(), approx(r, s, e, m - 1), r.len() == chord_start(s, e, m - 1), kept(s[m - 1].0, s[m - 1].1, e),
        if is_line(s[m - 1].0) { v == s[m - 1].0 } else { ps(v) == ps(s[m - 1].0) && v.bulge.v() == 0real }
    ensures #[trigger] approx(r.push(v), s, e, m)
{
    approx_push(r, v, s, e, m - 1);
}
pub proof fn chord_bound(sweep: real, sub: real, n: real)
    requires sweep >= 0real, sub > 0real, n >= sweep / sub, n > 0real
    ensures sweep / n <= sub
{
    assert(n * sub >= sweep) by(nonlinear_arith) requires sub > 0real, n >= sweep / sub;
    assert(sweep / n <= sub) by(nonlinear_arith) requires n > 0real, n * sub >= sweep;
}
'''

# (file, block, name, self type, contract); contracts of the same function for several self types are shared
V2 = ('core/math/vector2.rs', r'impl<T> Vector2<T>', 'Vector2')
VX = ('polyline/pline_vertex.rs', r'impl<T> PlineVertex<T>', 'PlineVertex')
SRC = ('polyline/traits.rs', r'pub trait PlineSource\b', None)
MUT = ('polyline/traits.rs', r'pub trait PlineSourceMut\b', 'Polyline')
CRE = ('polyline/traits.rs', r'pub trait PlineCreation\b', 'Polyline')
PL = ('polyline/pline.rs', r'impl<T> PlineSource for Polyline<T>', 'Polyline')
PM = ('polyline/pline.rs', r'impl<T> PlineSourceMut for Polyline<T>', 'Polyline')
PC = ('polyline/pline.rs', r'impl<T> PlineCreation for Polyline<T>', 'Polyline')
PI = ('polyline/pline.rs', r'impl<T> Index<usize> for Polyline<T>', 'Polyline')
BM = ('core/math/base_math.rs', None, '')

F = []


def f(props, where, name, **k):
    F.append(dict(props=props.split(), where=where, name=name, **k))


SAME = 'final(self).cl() == old(self).cl()'

# ---- vectors and vertexes
f('C25', V2, 'new', ensures=['r == (Vector2 { x, y })'])
f('C25', V2, 'zero', ensures=['r.x.v() == 0real', 'r.y.v() == 0real'])
f('C25', ('core/math/vector2.rs', None, ''), 'vec2', ensures=['r == (Vector2 { x, y })'])
f('C25', V2, 'scale', ensures=['r.x.v() == scale_factor.v() * self.x.v()', 'r.y.v() == scale_factor.v() * self.y.v()'])
f('C25', V2, 'dot', ensures=['r.v() == self.x.v() * other.x.v() + self.y.v() * other.y.v()'])
f('C25', V2, 'perp_dot', ensures=['r.v() == self.x.v() * other.y.v() - self.y.v() * other.x.v()'])
f('C25', V2, 'length_squared', ensures=['r.v() == self.x.v() * self.x.v() + self.y.v() * self.y.v()'])
f('C25', V2, 'length', ensures=['r.v() == root(self.x.v() * self.x.v() + self.y.v() * self.y.v())', 'r.v() >= 0real', 'r.v() * r.v() == self.x.v() * self.x.v() + self.y.v() * self.y.v()'],
  top='''proof { let a = self.x.v(); let b = self.y.v(); assert(a * a + b * b >= 0real) by(nonlinear_arith); root_only(a * a + b * b); }''')
f('C25', V2, 'fuzzy_eq_eps', ensures=['r == near(*self, other, fuzzy_epsilon.v())'])
f('C25', V2, 'fuzzy_eq', ensures=['r == near(*self, other, EPS())'])
f('C25', V2, 'perp', ensures=['r.x.v() == -self.y.v()', 'r.y == self.x'])
f('C25', VX, 'new', ensures=['r == (PlineVertex { x, y, bulge })'])
f('C25', VX, 'from_vector2', ensures=['r == (PlineVertex { x: vector2.x, y: vector2.y, bulge })'])
f('C25', VX, 'with_bulge', ensures=['r == wb(*self, bulge)'])
f('C25', VX, 'pos', ensures=['r == ps(*self)'])
f('C25', VX, 'bulge_is_zero', ensures=['r == is_line(*self)'])
f('C25', VX, 'bulge_is_pos', ensures=['r == (self.bulge.v() > 0real)'])
f('C25', VX, 'bulge_is_neg', ensures=['r == (self.bulge.v() < 0real)'])
f('C25', VX, 'fuzzy_eq_eps', ensures=['r == (near(ps(*self), ps(other), fuzzy_epsilon.v()) && rabs(self.bulge.v() - other.bulge.v()) < fuzzy_epsilon.v())'])
f('C25', BM, 'perp_dot_test_value', ensures=['r.v() == left_of(PlineVertex { x: p0.x, y: p0.y, bulge: p0.x }, PlineVertex { x: p1.x, y: p1.y, bulge: p0.x }, point)'])
f('C25', BM, 'is_left', ensures=['r == (left_of(PlineVertex { x: p0.x, y: p0.y, bulge: p0.x }, PlineVertex { x: p1.x, y: p1.y, bulge: p0.x }, point) > 0real)'])
f('C25', BM, 'is_left_or_equal', ensures=['r == (left_of(PlineVertex { x: p0.x, y: p0.y, bulge: p0.x }, PlineVertex { x: p1.x, y: p1.y, bulge: p0.x }, point) >= 0real)'])
f('C25', BM, 'dist_squared', ensures=['r.v() == dist2(p0, p1)'])

# ---- Polyline as a source and a container
f('C01', PI, 'index', requires=['index < self.vs().len()'], ensures=['*r == self.vs()[index as int]'], sig=[(r'&Self::Output', '&PlineVertex')])
f('C01', PL, 'vertex_count', ensures=['r == self.vs().len()'])
f('C01', PL, 'is_closed', ensures=['r == self.cl()'])
f('C01', PL, 'at', requires=['index < self.vs().len()'], ensures=['r == self.vs()[index as int]'])
f('C01', PL, 'get', ensures=['r == (if index < self.vs().len() { Some(self.vs()[index as int]) } else { None })'],
  rewrite=[(r'self\.vertex_data\.get\(index\)\.copied\(\)', 'vec_get(&self.vertex_data, index)')])
f('C01', PM, 'set_vertex', requires=['index < old(self).vs().len()'], ensures=['final(self).vs() == old(self).vs().update(index as int, vertex)', SAME])
f('C01', PM, 'insert_vertex', requires=['index <= old(self).vs().len()'], ensures=['final(self).vs() == old(self).vs().insert(index as int, vertex)', SAME])
f('C01', PM, 'remove', requires=['index < old(self).vs().len()'], ensures=['r == old(self).vs()[index as int]', 'final(self).vs() == old(self).vs().remove(index as int)', 'final(self).cl() == old(self).cl()'])
f('C01', PM, 'add_vertex', ensures=['final(self).vs() == old(self).vs().push(vertex)', SAME])
f('C01', PM, 'set_is_closed', ensures=['final(self).vs() == old(self).vs()', 'final(self).cl() == is_closed'])
f('C01', PM, 'clear', ensures=['final(self).vs().len() == 0', SAME])
f('C01', PC, 'with_capacity', ensures=['r.vs() == Seq::<PlineVertex>::empty()', 'r.cl() == is_closed'])
BOTH = ['Src', 'Polyline']
f('C01', SRC, 'is_empty', selfs=BOTH, ensures=['r == (self.vs().len() == 0)'])
f('C01', SRC, 'last', selfs=BOTH, requires=['self.vs().len() > 0'], ensures=['r == Some(self.vs().last())'])
f('C01', SRC, 'segment_count', selfs=BOTH, ensures=['r == segc(self.vs().len(), self.cl())'])
f('C01', SRC, 'next_wrapping_index', selfs=BOTH, ensures=['r == nxt(self.vs().len(), i as int)'], requires=['i < self.vs().len()'])
f('C01', SRC, 'prev_wrapping_index', selfs=BOTH, ensures=['r == if i == 0 { self.vs().len() - 1 } else { i - 1 }'], requires=['i < self.vs().len()'])
f('C01', SRC, 'fwd_wrapping_dist', selfs=BOTH, requires=['start_index < self.vs().len()', 'end_index < self.vs().len()'],
  ensures=['r == if start_index <= end_index { end_index - start_index } else { self.vs().len() - start_index + end_index }'])
f('C01', SRC, 'fwd_wrapping_index', selfs=BOTH, requires=['start_index < self.vs().len()', 'offset <= self.vs().len()'],
  ensures=['r == if start_index + offset < self.vs().len() { start_index + offset } else { start_index + offset - self.vs().len() }'])
f('C01', MUT, 'set', requires=['index < old(self).vs().len()'], ensures=['final(self).vs() == old(self).vs().update(index as int, PlineVertex { x, y, bulge })', SAME])
f('C01', MUT, 'set_last', requires=['old(self).vs().len() > 0'], ensures=['final(self).vs() == old(self).vs().update(old(self).vs().len() - 1, vertex)', SAME])
f('C01', MUT, 'insert', requires=['index <= old(self).vs().len()'], ensures=['final(self).vs() == old(self).vs().insert(index as int, PlineVertex { x, y, bulge })', SAME])
f('C01', MUT, 'remove_last', requires=['old(self).vs().len() > 0'], ensures=['r == old(self).vs().last()', 'final(self).vs() == old(self).vs().drop_last()', 'final(self).cl() == old(self).cl()'],
  )
f('C01', MUT, 'add', ensures=['final(self).vs() == old(self).vs().push(PlineVertex { x, y, bulge })', SAME])
f('C01', MUT, 'extend', ensures=['final(self).vs() == old(self).vs() + other.vs()', SAME])
f('C01', CRE, 'create_from', ensures=['r.vs() == pline.vs()', 'r.cl() == pline.cl()'])

# ---- C24
f('C24', MUT, 'translate_mut', ensures=['final(self).vs().len() == old(self).vs().len()', SAME,
  'forall|i: int| 0 <= i < old(self).vs().len() ==> (#[trigger] final(self).vs()[i]).bulge == old(self).vs()[i].bulge && final(self).vs()[i].x.v() == old(self).vs()[i].x.v() + x.v() && final(self).vs()[i].y.v() == old(self).vs()[i].y.v() + y.v()'],
  loops={1: dict(inv=['self.vs().len() == old(self).vs().len()', '$n == self.vs().len()', 'self.cl() == old(self).cl()',
    'forall|i: int| 0 <= i < $i ==> (#[trigger] self.vs()[i]).bulge == old(self).vs()[i].bulge && self.vs()[i].x.v() == old(self).vs()[i].x.v() + x.v() && self.vs()[i].y.v() == old(self).vs()[i].y.v() + y.v()',
    'forall|i: int| $i <= i < self.vs().len() ==> #[trigger] self.vs()[i] == old(self).vs()[i]'])})
f('C24', MUT, 'scale_mut', ensures=['final(self).vs().len() == old(self).vs().len()', SAME,
  'forall|i: int| 0 <= i < old(self).vs().len() ==> (#[trigger] final(self).vs()[i]).bulge == old(self).vs()[i].bulge && final(self).vs()[i].x.v() == old(self).vs()[i].x.v() * scale_factor.v() && final(self).vs()[i].y.v() == old(self).vs()[i].y.v() * scale_factor.v()'],
  loops={1: dict(inv=['self.vs().len() == old(self).vs().len()', '$n == self.vs().len()', 'self.cl() == old(self).cl()',
    'forall|i: int| 0 <= i < $i ==> (#[trigger] self.vs()[i]).bulge == old(self).vs()[i].bulge && self.vs()[i].x.v() == old(self).vs()[i].x.v() * scale_factor.v() && self.vs()[i].y.v() == old(self).vs()[i].y.v() * scale_factor.v()',
    'forall|i: int| $i <= i < self.vs().len() ==> #[trigger] self.vs()[i] == old(self).vs()[i]'])})
# ---- C03
f('C03', MUT, 'invert_direction_mut', ensures=['final(self).vs().len() == old(self).vs().len()', SAME,
  'old(self).vs().len() < 2 ==> final(self).vs() == old(self).vs()',
  'old(self).vs().len() >= 2 ==> forall|i: int| 0 <= i < old(self).vs().len() ==> ps(#[trigger] final(self).vs()[i]) == ps(old(self).vs()[old(self).vs().len() - 1 - i])',
  'old(self).vs().len() >= 2 ==> forall|i: int| 0 <= i < old(self).vs().len() - 1 ==> (#[trigger] final(self).vs()[i]).bulge.v() == -old(self).vs()[old(self).vs().len() - 2 - i].bulge.v()',
  'old(self).vs().len() >= 2 && old(self).cl() ==> final(self).vs().last().bulge.v() == -old(self).vs().last().bulge.v()'],
  loops={1: dict(dec='$m1 - $m0 + 1', inv=['vc == old(self).vs().len()', 'vc >= 2', 'self.vs().len() == vc', 'self.cl() == old(self).cl()', '0 <= $m0', '$m1 < vc', '$m0 + $m1 == vc - 1', '$m0 <= $m1 + 1',
    'forall|i: int| $m0 <= i <= $m1 ==> #[trigger] self.vs()[i] == old(self).vs()[i]',
    'forall|i: int| 0 <= i < $m0 ==> #[trigger] self.vs()[i] == old(self).vs()[vc - 1 - i]',
    'forall|i: int| $m1 < i < vc ==> #[trigger] self.vs()[i] == old(self).vs()[vc - 1 - i]']),
   2: dict(inv=['1 <= $i', '$n == vc', 'vc == old(self).vs().len()', 'vc >= 2', 'self.vs().len() == vc', 'self.cl() == old(self).cl()',
    'forall|i: int| 0 <= i < vc ==> ps(#[trigger] self.vs()[i]) == ps(old(self).vs()[vc - 1 - i])',
    'forall|i: int| 0 <= i < $i - 1 ==> (#[trigger] self.vs()[i]).bulge.v() == -old(self).vs()[vc - 2 - i].bulge.v()',
    'forall|i: int| $i - 1 <= i < vc ==> #[trigger] self.vs()[i] == old(self).vs()[vc - 1 - i]'])})
# ---- C11
f('C11', SRC, 'path_length', selfs=['Src'], ensures=['r.v() == sum_len(segs(self.vs(), self.cl()), segc(self.vs().len(), self.cl()) as int)'],
  loops={1: dict(inv=['$s == segs(self.vs(), self.cl())', '$m0.v() == sum_len($s, $i as int)'])})
f('C11', SRC, 'area', selfs=['Src'], ensures=['!self.cl() ==> r.v() == 0real',
   'self.cl() ==> 2real * r.v() == sum_area2(segs(self.vs(), self.cl()), segc(self.vs().len(), self.cl()) as int)'],
  requires=['EPS() > 0real'],
  loops={1: dict(inv=['$s == segs(self.vs(), self.cl())', '$m0.v() == sum_area2($s, $i as int)'])})
# ---- C06
f('C06', SRC, 'extents', selfs=['Src'], ensures=[
   'r.is_none() == (segc(self.vs().len(), self.cl()) == 0)',
   'r.is_some() ==> ({ let s = segs(self.vs(), self.cl()); let k = s.len() as int; let b = r.unwrap(); b.min_x.v() == bx0(s, k) && b.max_x.v() == bx1(s, k) && b.min_y.v() == by0(s, k) && b.max_y.v() == by1(s, k) })'],
  loops={1: dict(inv=['$s == segs(self.vs(), self.cl())', '$m0.min_x.v() == bx0($s, $i as int)', '$m0.max_x.v() == bx1($s, $i as int)', '$m0.min_y.v() == by0($s, $i as int)', '$m0.max_y.v() == by1($s, $i as int)',
    '$i < $n ==> $m0.min_x.v() <= $s[$i as int].0.x.v() <= $m0.max_x.v()', '$i < $n ==> $m0.min_y.v() <= $s[$i as int].0.y.v() <= $m0.max_y.v()'])})
# ---- C07
f('C07', SRC, 'closest_point', selfs=['Src'],
  requires=['forall|i: int| 0 <= i < segc(self.vs().len(), self.cl()) ==> #[trigger] seg_dist2(self.vs(), i, point, pos_equal_eps) < MAXR()'],
  ensures=['r.is_none() == (self.vs().len() == 0)',
    'self.vs().len() == 1 ==> r.unwrap().seg_start_index == 0 && r.unwrap().seg_point == ps(self.vs()[0]) && r.unwrap().distance.v() >= 0real && r.unwrap().distance.v() * r.unwrap().distance.v() == dist2(point, ps(self.vs()[0]))',
    '''self.vs().len() >= 2 ==> ({ let c = r.unwrap(); let n = segc(self.vs().len(), self.cl()); let k = c.seg_start_index as int;
        k < n && c.seg_point == closest_s(self.vs()[k], self.vs()[nxt(self.vs().len(), k)], point, pos_equal_eps)
        && c.distance.v() >= 0real && c.distance.v() * c.distance.v() == seg_dist2(self.vs(), k, point, pos_equal_eps)
        && forall|i: int| 0 <= i < n ==> #[trigger] seg_dist2(self.vs(), i, point, pos_equal_eps) >= seg_dist2(self.vs(), k, point, pos_equal_eps) })'''],
  loops={1: dict(inv=['$s == seg_idx(self.vs().len(), self.cl())', 'self.vs().len() >= 2',
    '$i == 0 ==> $m1.v() == MAXR()',
    '$i > 0 ==> ({ let k = $m0.seg_start_index as int; k < $i && $m0.seg_point == closest_s(self.vs()[k], self.vs()[nxt(self.vs().len(), k)], point, pos_equal_eps) && $m1.v() == seg_dist2(self.vs(), k, point, pos_equal_eps) })',
    '$i > 0 ==> $m1.v() >= 0real',
    'forall|i: int| 0 <= i < $i ==> #[trigger] seg_dist2(self.vs(), i, point, pos_equal_eps) >= $m1.v()'],
    top='''proof { let k = $i as int; let q = closest_s(self.vs()[k], self.vs()[nxt(self.vs().len(), k)], point, pos_equal_eps);
      let a = point.x.v() - q.x.v(); let b = point.y.v() - q.y.v(); assert(a * a + b * b >= 0real) by(nonlinear_arith);
      assert(seg_dist2(self.vs(), k, point, pos_equal_eps) == a * a + b * b); }''')},
  top='''proof { let q = ps(self.vs()[0]); assert(dist2(point, q) == dist2(q, point)) by {
      let a = point.x.v() - q.x.v(); let b = q.x.v() - point.x.v(); let c = point.y.v() - q.y.v(); let d = q.y.v() - point.y.v();
      assert(a * a == b * b) by(nonlinear_arith) requires a == -b; assert(c * c == d * d) by(nonlinear_arith) requires c == -d; } }''')
# ---- C10
f('C10', SRC, 'winding_number', selfs=['Src'], requires=['self.vs().len() < 0x7fff_ffff'],
  ensures=['r == (if self.cl() && self.vs().len() >= 2 { sum_turns(segs(self.vs(), true), point, self.vs().len() as int) } else { 0 })'],
  closures={'process_line_winding': dict(ret='(q: i32)', spec='ensures q == line_turns(v1, v2, point)'), 'process_arc_winding': dict(drop='arc_winding')},
  loops={1: dict(inv=['$s == segs(self.vs(), true)', 'winding == sum_turns($s, point, $i as int)', '-($i as int) <= winding <= $i'])})
# ---- C22
PT = '''({ let s = segs(self.vs(), self.cl()); let a = s[i as int].0; let b = s[i as int].1; let t = (target_path_length.v() - sum_len(s, i as int)) / seg_len(a, b);
      i < s.len() && sum_len(s, i as int) < target_path_length.v() && sum_len(s, i + 1) >= target_path_length.v() && seg_len(a, b) > 0real
         && (if is_line(a) { pt.x.v() == a.x.v() + t * (b.x.v() - a.x.v()) && pt.y.v() == a.y.v() + t * (b.y.v() - a.y.v()) }
             else { let ang = angle_s(center_s(a, b), ps(a)) + bulge_angle_s(a.bulge.v()) * t;
                    pt.x.v() == circle_x(radius_s(a, b).v(), center_s(a, b), ang) && pt.y.v() == circle_y(radius_s(a, b).v(), center_s(a, b), ang) }) })'''
f('C22', SRC, 'find_point_at_path_length', selfs=['Src'], requires=['self.vs().len() > 0'],
  ensures=['target_path_length.v() <= 0real ==> r == Ok::<(usize, Vector2), R>((0usize, ps(self.vs()[0])))',
    'target_path_length.v() > 0real ==> match r { Ok((i, pt)) => %s, Err(l) => l.v() == sum_len(segs(self.vs(), self.cl()), segc(self.vs().len(), self.cl()) as int) && l.v() < target_path_length.v() }' % PT],
  loops={1: dict(inv=['$n == segs(self.vs(), self.cl()).len()', '$s == Seq::new(segs(self.vs(), self.cl()).len(), |i: int| (i as usize, segs(self.vs(), self.cl())[i]))',
     '$m0.v() == sum_len(segs(self.vs(), self.cl()), $i as int)', '$m0.v() < target_path_length.v()'])})
# ---- C12
f('C12', MUT, 'add_or_replace_vertex', ensures=['final(self).vs() == merge(old(self).vs(), vertex, pos_equal_eps.v())', SAME])
f('C12', MUT, 'add_or_replace', ensures=['final(self).vs() == merge(old(self).vs(), PlineVertex { x, y, bulge }, pos_equal_eps.v())', SAME])
f('C12', MUT, 'extend_remove_repeat', ensures=['final(self).vs() == merges(old(self).vs(), other.vs(), pos_equal_eps.v(), other.vs().len() as int)', SAME,
   'no_repeats(old(self).vs(), pos_equal_eps.v()) ==> no_repeats(final(self).vs(), pos_equal_eps.v())'],
  top='proof { merges_zero(old(self).vs(), other.vs(), pos_equal_eps.v()); if no_repeats(old(self).vs(), pos_equal_eps.v()) { merges_ok(old(self).vs(), other.vs(), pos_equal_eps.v(), other.vs().len() as int); } }',
  loops={1: dict(inv=['$s == other.vs()', 'self.vs() == merges(old(self).vs(), other.vs(), pos_equal_eps.v(), $i as int)', 'self.cl() == old(self).cl()'],
    top='proof { merges_step(old(self).vs(), other.vs(), pos_equal_eps.v(), $i as int); }')})
NOREP = ['no_repeats({0}, pos_equal_eps.v())', '{1} && {0}.len() >= 2 ==> !near(ps({0}.last()), ps({0}[0]), pos_equal_eps.v())']
MERGED = 'merges(Seq::empty(), {0}.vs(), pos_equal_eps.v(), {0}.vs().len() as int)'
f('C12', CRE, 'create_from_remove_repeat', ensures=['r.cl() == pline.cl()',
   'r.vs() == (if pline.cl() { close(%s, pos_equal_eps.v()) } else { %s })' % (MERGED.format('pline'), MERGED.format('pline'))] + [x.format('r.vs()', 'pline.cl()') for x in NOREP],
  top='proof { merges_zero(Seq::empty(), pline.vs(), pos_equal_eps.v()); merges_ok(Seq::empty(), pline.vs(), pos_equal_eps.v(), pline.vs().len() as int); close_ok(%s, pos_equal_eps.v()); }' % MERGED.format('pline'),
  loops={1: dict(inv=['$s == pline.vs()', 'result.cl() == pline.cl()', 'result.vs() == merges(Seq::empty(), pline.vs(), pos_equal_eps.v(), $i as int)'],
     top='proof { merges_step(Seq::empty(), pline.vs(), pos_equal_eps.v(), $i as int); }'),
   2: dict(dec='result.vs().len()', inv=['result.cl() == pline.cl()', 'close(result.vs(), pos_equal_eps.v()) == close(%s, pos_equal_eps.v())' % MERGED.format('pline')])})
f('C12', SRC, 'remove_repeat_pos', selfs=['Src'], ensures=['r.is_some() ==> r.unwrap().cl() == self.cl()',
   'self.vs().len() < 2 ==> r.is_none()',
   '''self.vs().len() >= 2 ==> (if r.is_some() { r.unwrap().vs() } else { self.vs() }) == (if self.cl() { close(%s, pos_equal_eps.v()) } else { %s })''' % (MERGED.format('self'), MERGED.format('self')),
   'r.is_some() ==> r.unwrap().vs().len() >= 1',
   ] + ['self.vs().len() >= 2 ==> ({ let q = if r.is_some() { r.unwrap().vs() } else { self.vs() }; %s })' % x.format('q', 'self.cl()') for x in NOREP],
  top='proof { assert(self.vs().subrange(0, self.vs().len() as int) =~= self.vs()); merges_ok(Seq::empty(), self.vs(), pos_equal_eps.v(), self.vs().len() as int); close_ok(%s, pos_equal_eps.v()); }' % MERGED.format('self'),
  loops={1: dict(inv=['$n + 1 == self.vs().len()', '$s == Seq::new(self.vs().len(), |i: int| (i as usize, self.vs()[i])).subrange(1, self.vs().len() as int)',
     'result.is_some() ==> result.unwrap().cl() == self.cl() && result.unwrap().vs() == merges(Seq::empty(), self.vs(), pos_equal_eps.v(), $i + 1)',
     'result.is_none() ==> self.vs().subrange(0, $i + 1) =~= merges(Seq::empty(), self.vs(), pos_equal_eps.v(), $i + 1)',
     '$m1 == ps(merges(Seq::empty(), self.vs(), pos_equal_eps.v(), $i + 1).last())'],
     before='proof { merges_first(self.vs(), pos_equal_eps.v()); assert(self.vs().subrange(0, 1) =~= seq![self.vs()[0]]); }',
     top='proof { merges_ok(Seq::empty(), self.vs(), pos_equal_eps.v(), $i + 1); merges_step(Seq::empty(), self.vs(), pos_equal_eps.v(), $i + 1); assert($i + 1 < self.vs().len()); assert(self.vs().subrange(0, $i + 2) =~= self.vs().subrange(0, $i + 1).push(self.vs()[$i + 1])); }'),
   2: dict(dec='r.vs().len()', inv=['r.cl() == self.cl()', 'close(r.vs(), pos_equal_eps.v()) == close(%s, pos_equal_eps.v())' % MERGED.format('self')])})
# ---- C14
f('C14', SRC, 'rotate_start', selfs=['Src'],
  ensures=['r.is_none() == (!self.cl() || self.vs().len() < 2 || start_index >= self.vs().len())',
   'r.is_some() ==> r.unwrap().cl()',
   '''r.is_some() ==> ({ let s = self.vs(); let k = start_index as int; let j = nxt(s.len(), k); let q = r.unwrap().vs(); let e = pos_equal_eps.v();
      if near(ps(s[k]), point, e) { q == rot(s, k) } else if near(point, ps(s[j]), e) { q == rot(s, j) }
      else { let sp = split_s(s[k], s[j], point, pos_equal_eps); q == (seq![sp.split_vertex] + rot(s, j)).update(s.len() as int, sp.updated_start) } })'''],
  closures={'wrapping_vertexes_starting_at': dict(ret='(q: Iter<PlineVertex>)', spec='requires start < vc, vc == self.vs().len() ensures q.sq() == rot(self.vs(), start as int)')})

# ---- C02
VD = ('polyline/pline_view.rs', r'impl<T> PlineViewData<T>', 'PlineViewData')
NOV = [(r'if !\(view_data\.validate_for_source\(source\) == ViewDataValidation::IsValid\) \{ unreached\(\) \}', '')]
f('C02', VD, 'vertex_count', requires=['self.end_index_offset <= LIM'], ensures=['r == self.end_index_offset + 2'])
f('C02', VD, 'get_vertex', end=False, requires=['view_ok(*self, source.vs(), source.cl())'],
  ensures=['r.is_some() == (index < self.end_index_offset + 2)',
    'r.is_some() && !self.inverted_direction ==> ps(r.unwrap()) == ps(forward(*self, source.vs(), index as int))',
    'r.is_some() && !self.inverted_direction && index <= self.end_index_offset ==> r.unwrap().bulge.v() == forward(*self, source.vs(), index as int).bulge.v()',
    'r.is_some() && self.inverted_direction ==> ps(r.unwrap()) == ps(forward(*self, source.vs(), self.end_index_offset + 1 - index))',
    'r.is_some() && self.inverted_direction && index <= self.end_index_offset ==> r.unwrap().bulge.v() == -forward(*self, source.vs(), self.end_index_offset - index).bulge.v()',
    'r.is_some() && index == self.end_index_offset + 1 ==> r.unwrap().bulge.v() == 0real'])
f('C02', VD, 'from_entire_pline', requires=['source.vs().len() >= 2'], rewrite=NOV,
  ensures=['view_ok(r, source.vs(), source.cl())', '!r.inverted_direction', 'r.end_index_offset + 1 == segc(source.vs().len(), source.cl())',
    'forall|i: int| 0 <= i < segc(source.vs().len(), source.cl()) ==> #[trigger] forward(r, source.vs(), i) == source.vs()[i]',
    'ps(forward(r, source.vs(), r.end_index_offset + 1)) == ps(source.vs()[if source.cl() { 0 } else { source.vs().len() - 1 }])'])
f('C02', VD, 'create_on_single_segment', requires=['source.vs().len() >= 2', 'start_index < source.vs().len()'], rewrite=NOV,
  ensures=['r.is_none() == near(ps(updated_start), end_intersect, pos_equal_eps.v())', 'r.is_some() ==> view_ok(r.unwrap(), source.vs(), source.cl())',
    'r.is_some() ==> r.unwrap() == (PlineViewData { start_index, end_index_offset: 0, updated_start, updated_end_bulge: updated_start.bulge, end_point: end_intersect, inverted_direction: false })'])
f('C02', VD, 'create', requires=['source.vs().len() >= 2', 'start_index < source.vs().len()', '0 < traverse_count <= source.vs().len()', 'intersect_index == wrap(source.vs().len(), start_index + traverse_count)', '!source.cl() ==> start_index + traverse_count < source.vs().len()'], rewrite=NOV,
  ensures=['view_ok(r, source.vs(), source.cl())', 'r.start_index == start_index', '!r.inverted_direction', 'r.end_point == end_intersect', 'r.updated_start == updated_start',
    '''({ let s = source.vs(); let k = intersect_index as int;
       if near(end_intersect, ps(s[k]), pos_equal_eps.v()) { r.end_index_offset == traverse_count - 1 && r.updated_end_bulge == (if traverse_count == 1 { updated_start.bulge } else { s[wrap(s.len(), start_index + traverse_count - 1)].bulge }) }
       else { r.end_index_offset == traverse_count && r.updated_end_bulge == split_s(s[k], s[nxt(s.len(), k)], end_intersect, pos_equal_eps).updated_start.bulge } })'''])
f('C02', VD, 'from_slice_points', requires=['source.vs().len() >= 2', 'start_index < source.vs().len()', 'end_index < source.vs().len()', 'start_index <= end_index || source.cl()'], rewrite=NOV,
  ensures=['r.is_some() ==> view_ok(r.unwrap(), source.vs(), source.cl()) && !r.unwrap().inverted_direction && r.unwrap().end_point == end_point',
    '''({ let s = source.vs(); let c = source.cl(); let e = pos_equal_eps.v();
        let st = adjusted(s, c, start_point, start_index as int, end_index as int, e);
        let moved = (c || start_index < end_index) && near(ps(s[nxt(s.len(), start_index as int)]), start_point, e);
        let tc = traverse(s.len(), c, st, end_index as int, ps(s[st]), start_point, end_point, e);
        let b = s[nxt(s.len(), st)];
        let us0 = if moved { s[st] } else { split_s(s[st], b, start_point, pos_equal_eps).split_vertex };
        let us = if tc == 0 { split_s(us0, b, end_point, pos_equal_eps).updated_start } else { us0 };
        let k = end_index as int;
        r.is_none() == (tc == 0 && near(ps(us), end_point, e))
        && (r.is_some() ==> ({ let d = r.unwrap(); d.start_index == st && d.updated_start == us
            && (if tc == 0 { d.end_index_offset == 0 } else if near(end_point, ps(s[k]), e) { d.end_index_offset == tc - 1 && (tc > 1 ==> d.updated_end_bulge == s[wrap(s.len(), st + tc - 1)].bulge) }
                else { d.end_index_offset == tc && d.updated_end_bulge == split_s(s[k], s[nxt(s.len(), k)], end_point, pos_equal_eps).updated_start.bulge }) })) })'''])
f('C02', VD, 'from_new_start', requires=['source.vs().len() >= 2', 'start_index < source.vs().len()'], rewrite=NOV,
  ensures=['r.is_some() ==> view_ok(r.unwrap(), source.vs(), source.cl()) && !r.unwrap().inverted_direction',
    '''source.cl() ==> r.is_some() && ({ let s = source.vs(); let d = r.unwrap(); let n = s.len();
        let st = adjusted(s, true, start_point, start_index as int, start_index as int, pos_equal_eps.v());
        let sp = split_s(s[st], s[nxt(n, st)], start_point, pos_equal_eps);
        d.start_index == st && d.updated_start == sp.split_vertex && d.end_point == start_point
        && (if near(ps(s[st]), start_point, pos_equal_eps.v()) { d.end_index_offset == n - 1 && d.updated_end_bulge == s[wrap(n, st + n - 1)].bulge } else { d.end_index_offset == n && d.updated_end_bulge == sp.updated_start.bulge }) })'''])

# ---- C23
f('C23', SRC, 'arcs_to_approx_lines', selfs=['Src'], requires=['error_distance.v() > 0real', 'EPS() > 0real'],
  ensures=['r.is_some() ==> r.unwrap().cl() == self.cl()', 'r.is_some() && self.vs().len() == 0 ==> r.unwrap().vs().len() == 0',
    '''r.is_some() && self.vs().len() > 0 ==> ({ let s = segs(self.vs(), self.cl()); let n = chord_start(s, error_distance.v(), s.len() as int); let q = r.unwrap().vs();
        approx(q, s, error_distance.v(), s.len() as int) && q.len() == n + if self.cl() { 0int } else { 1 } && (!self.cl() ==> q.last() == self.vs().last()) })'''],
  loops={1: dict(inv=['$s == segs(self.vs(), self.cl())', '$m0.cl() == self.cl()', 'self.vs().len() > 0',
      'approx($m0.vs(), $s, error_distance.v(), $i as int)', '$m0.vs().len() == chord_start($s, error_distance.v(), $i as int)'],
      top='''let ghost sq = $s; let ghost k0 = $i as int; let ghost st = chord_start(sq, error_distance.v(), k0); let ghost va = sq[k0].0; let ghost vb = sq[k0].1;
       proof { let rr = radius_s(va, vb).v(); let e = error_distance.v();
         if !kept(va, vb, e) { assert(0real < e / rr <= 1real) by(nonlinear_arith) requires e > 0real, rr >= e; } }'''),
   2: dict(inv=['$i >= 1', '$m0.cl() == self.cl()', '$m0.vs().len() == st + $i', 'approx($m0.vs(), sq, error_distance.v(), k0)', 'st >= 0',
       'ps($m0.vs()[st]) == ps(va)', '$m0.vs()[st].bulge.v() == 0real', '$n > 1 ==> $n == chords(va, vb, error_distance.v())', '$n <= 1 ==> $i == 1',
       'forall|j: int| 0 < j < $i ==> #[trigger] on_arc($m0.vs()[st + j], va, vb, error_distance.v(), j)'])},
  top='broadcast use {approx_push, approx_one};')
for _n, _b in (('create_aabb_index', 'seg_box_s'), ('create_approx_aabb_index', 'fast_box_s')):
    f('C06', SRC, _n, selfs=['Src'], sig=[(r'StaticAABB2DIndex<R>', 'StaticAABB2DIndex')],
      ensures=['r.boxes().len() == segc(self.vs().len(), self.cl())',
        'forall|i: int| 0 <= i < segc(self.vs().len(), self.cl()) ==> #[trigger] r.boxes()[i] == tup(%s(segs(self.vs(), self.cl())[i].0, segs(self.vs(), self.cl())[i].1))' % _b],
      loops={1: dict(inv=['$s == segs(self.vs(), self.cl())', '$m0.announced() == $n', '$m0.boxes().len() == $i',
        'forall|i: int| 0 <= i < $i ==> #[trigger] $m0.boxes()[i] == tup(%s($s[i].0, $s[i].1))' % _b])})
f('C11', SRC, 'orientation', selfs=['Src'], requires=['EPS() > 0real'],
  ensures=['(r == PlineOrientation::Open) == !self.cl()',
    'self.cl() ==> ((r == PlineOrientation::Clockwise) == (sum_area2(segs(self.vs(), self.cl()), segc(self.vs().len(), self.cl()) as int) < 0real))'])
import contracts2
SPEC += contracts2.SPEC
F += contracts2.F
