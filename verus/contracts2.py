"""Contracts of the functions that work on whole polylines: intersects, slices, selection, stitching."""
SPEC = r'''
// ---- intersects of two polylines
pub open spec fn pts(i: PlineSegIntr) -> Seq<Vector2> { match i {
    PlineSegIntr::TangentIntersect { point } => seq![point], PlineSegIntr::OneIntersect { point } => seq![point],
    PlineSegIntr::TwoIntersects { point1, point2 } => seq![point1, point2], _ => Seq::empty() } }
pub open spec fn overlap(i: PlineSegIntr) -> Option<(Vector2, Vector2)> { match i {
    PlineSegIntr::OverlappingLines { point1, point2 } => Some((point1, point2)), PlineSegIntr::OverlappingArcs { point1, point2 } => Some((point1, point2)), _ => None } }
pub open spec fn pair(a: Src, b: Src, i: int, j: int, e: R) -> PlineSegIntr {
    intr_s(a.vs()[i], a.vs()[nxt(a.vs().len(), i)], b.vs()[j], b.vs()[nxt(b.vs().len(), j)], e)
}
// the point is the end of segment i and start of another one
pub open spec fn at_end(a: Src, i: int, p: Vector2, e: real) -> bool { near(ps(a.vs()[nxt(a.vs().len(), i)]), p, e) && (a.cl() || i != a.vs().len() - 2) }
pub open spec fn meets(a: Src, b: Src, i: int, j: int, p: Vector2, e: R) -> bool {
    0 <= i < segc(a.vs().len(), a.cl()) && 0 <= j < segc(b.vs().len(), b.cl()) && pts(pair(a, b, i, j, e)).contains(p) && !at_end(a, i, p, e.v()) && !at_end(b, j, p, e.v())
}
pub open spec fn overlaps(a: Src, b: Src, i: int, j: int, e: R) -> bool {
    0 <= i < segc(a.vs().len(), a.cl()) && 0 <= j < segc(b.vs().len(), b.cl()) && overlap(pair(a, b, i, j, e)).is_some()
}
pub open spec fn seg_at(a: Src, i: int) -> (PlineVertex, PlineVertex) { (a.vs()[i], a.vs()[nxt(a.vs().len(), i)]) }
pub open spec fn fbox(a: Src, i: int) -> AABB { fast_box_s(seg_at(a, i).0, seg_at(a, i).1) }
// the approximate boxes of the segments touch when the second is grown by e
pub open spec fn reach(a: Src, b: Src, i: int, j: int, e: real) -> bool {
    let q = fbox(b, j); touch(tup(fbox(a, i)), q.min_x.v() - e, q.min_y.v() - e, q.max_x.v() + e, q.max_y.v() + e)
}
pub open spec fn indexed(x: StaticAABB2DIndex, a: Src) -> bool {
    x.boxes().len() == segc(a.vs().len(), a.cl()) && forall|i: int| 0 <= i < segc(a.vs().len(), a.cl()) ==> #[trigger] x.boxes()[i] == tup(fbox(a, i))
}
pub open spec fn bi(i: int, j: int, p: Vector2) -> PlineBasicIntersect { PlineBasicIntersect { start_index1: i as usize, start_index2: j as usize, point: p } }
pub open spec fn oi(i: int, j: int, p: (Vector2, Vector2)) -> PlineOverlappingIntersect { PlineOverlappingIntersect { start_index1: i as usize, start_index2: j as usize, point1: p.0, point2: p.1 } }
// an overlap that ends where segment x of the first (second) polyline starts
pub open spec fn ends1(a: Src, o: PlineOverlappingIntersect, x: int, e: real) -> bool {
    nxt(a.vs().len(), o.start_index1 as int) == x && (near(ps(a.vs()[x]), o.point1, e) || near(ps(a.vs()[x]), o.point2, e))
}
pub open spec fn ends2(b: Src, o: PlineOverlappingIntersect, x: int, e: real) -> bool {
    nxt(b.vs().len(), o.start_index2 as int) == x && (near(ps(b.vs()[x]), o.point1, e) || near(ps(b.vs()[x]), o.point2, e))
}
pub open spec fn marked1(a: Src, s: Seq<PlineOverlappingIntersect>, x: int, e: real) -> bool { exists|m: int| 0 <= m < s.len() && ends1(a, #[trigger] s[m], x, e) }
pub open spec fn marked2(b: Src, s: Seq<PlineOverlappingIntersect>, x: int, e: real) -> bool { exists|m: int| 0 <= m < s.len() && ends2(b, #[trigger] s[m], x, e) }
pub broadcast proof fn marked_push1(a: Src, s: Seq<PlineOverlappingIntersect>, o: PlineOverlappingIntersect, x: int, e: real)
    ensures #[trigger] marked1(a, s.push(o), x, e) == (marked1(a, s, x, e) || ends1(a, o, x, e))
{
    let t = s.push(o);
    if marked1(a, s, x, e) { let m = choose|m: int| 0 <= m < s.len() && ends1(a, #[trigger] s[m], x, e); assert(t[m] == s[m]); }
    if ends1(a, o, x, e) { assert(t[s.len() as int] == o); }
    if marked1(a, t, x, e) { let m = choose|m: int| 0 <= m < t.len() && ends1(a, #[trigger] t[m], x, e); if m < s.len() { assert(t[m] == s[m]); } }
}
pub broadcast proof fn marked_push2(b: Src, s: Seq<PlineOverlappingIntersect>, o: PlineOverlappingIntersect, x: int, e: real)
    ensures #[trigger] marked2(b, s.push(o), x, e) == (marked2(b, s, x, e) || ends2(b, o, x, e))
{
    let t = s.push(o);
    if marked2(b, s, x, e) { let m = choose|m: int| 0 <= m < s.len() && ends2(b, #[trigger] s[m], x, e); assert(t[m] == s[m]); }
    if ends2(b, o, x, e) { assert(t[s.len() as int] == o); }
    if marked2(b, t, x, e) { let m = choose|m: int| 0 <= m < t.len() && ends2(b, #[trigger] t[m], x, e); if m < s.len() { assert(t[m] == s[m]); } }
}
pub broadcast proof fn contains_push<T>(s: Seq<T>, x: T, y: T)
    ensures #[trigger] s.push(x).contains(y) == (s.contains(y) || x == y)
{
    if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(s.push(x)[k] == y); }
    assert(s.push(x)[s.len() as int] == x);
    if s.push(x).contains(y) { let k = choose|k: int| 0 <= k < s.push(x).len() && s.push(x)[k] == y; if k < s.len() { assert(s[k] == y); } }
}
// what is repeated by an overlap
pub open spec fn repeated(a: Src, b: Src, s: Seq<PlineOverlappingIntersect>, q: PlineBasicIntersect, e: real) -> bool {
    (marked1(a, s, q.start_index1 as int, e) && near(q.point, ps(a.vs()[q.start_index1 as int]), e))
    || (marked2(b, s, q.start_index2 as int, e) && near(q.point, ps(b.vs()[q.start_index2 as int]), e))
}
pub open spec fn basic_ok(a: Src, b: Src, q: PlineBasicIntersect, e: R) -> bool { meets(a, b, q.start_index1 as int, q.start_index2 as int, q.point, e) }
pub open spec fn over_ok(a: Src, b: Src, q: PlineOverlappingIntersect, e: R) -> bool {
    overlaps(a, b, q.start_index1 as int, q.start_index2 as int, e) && overlap(pair(a, b, q.start_index1 as int, q.start_index2 as int, e)) == Some((q.point1, q.point2))
}
// ---- what a visitor of the self intersects is to be given
pub open spec fn added(l0: Seq<Ev>, l: Seq<Ev>, ev: Ev) -> bool { exists|t: int| l0.len() <= t < l.len() && #[trigger] l[t] == ev }
pub broadcast proof fn added_push(l0: Seq<Ev>, l: Seq<Ev>, w: Ev, ev: Ev)
    requires l0.len() <= l.len()
    ensures #[trigger] added(l0, l.push(w), ev) == (added(l0, l, ev) || w == ev)
{
    let m = l.push(w);
    if added(l0, l, ev) { let t = choose|t: int| l0.len() <= t < l.len() && #[trigger] l[t] == ev; assert(m[t] == ev); }
    if w == ev { assert(m[l.len() as int] == ev); }
    if added(l0, m, ev) { let t = choose|t: int| l0.len() <= t < m.len() && #[trigger] m[t] == ev; if t < l.len() { assert(l[t] == ev); } }
}
pub open spec fn ext(l0: Seq<Ev>, l: Seq<Ev>) -> bool { l0.len() <= l.len() && forall|t: int| 0 <= t < l0.len() ==> #[trigger] l[t] == l0[t] }
pub broadcast proof fn added_ext1(l0: Seq<Ev>, m: Seq<Ev>, l: Seq<Ev>, ev: Ev)
    requires #[trigger] ext(m, l), added(l0, m, ev) ensures #[trigger] added(l0, l, ev)
{ let t = choose|t: int| l0.len() <= t < m.len() && #[trigger] m[t] == ev; assert(l[t] == ev); }
pub broadcast proof fn added_ext2(l0: Seq<Ev>, m: Seq<Ev>, l: Seq<Ev>, ev: Ev)
    requires #[trigger] ext(m, l), added(m, l, ev), l0.len() <= m.len() ensures #[trigger] added(l0, l, ev)
{ let t = choose|t: int| m.len() <= t < l.len() && #[trigger] l[t] == ev; }
// of the segments that follow each other: (m, m + 1)
pub open spec fn local_ev(a: Src, m: int, ev: Ev, e: R) -> bool {
    let n = a.vs().len(); let j = nxt(n, m); let k = nxt(n, j); let v1 = a.vs()[m]; let v2 = a.vs()[j]; let v3 = a.vs()[k];
    if near(ps(v1), ps(v2), e.v()) { ev == Ev::O(oi(m, j, (ps(v1), ps(v2)))) }
    else { match ev {
        Ev::B(b) => b == bi(m, j, b.point) && pts(intr_s(v1, v2, v2, v3, e)).contains(b.point) && !near(b.point, ps(v2), e.v()),
        Ev::O(o) => o == oi(m, j, (o.point1, o.point2)) && overlap(intr_s(v1, v2, v2, v3, e)) == Some((o.point1, o.point2)),
    } }
}
pub open spec fn corners(a: Src) -> int { let n = a.vs().len() as int; if n < 3 { 0 } else if a.cl() { n } else { n - 2 } }
pub open spec fn folded(a: Src) -> bool { a.vs().len() == 2 && a.cl() && rabs(a.vs()[0].bulge.v() + a.vs()[1].bulge.v()) < EPS() }
pub open spec fn fold_ev(a: Src) -> Ev { Ev::O(oi(0, 1, (ps(a.vs()[0]), ps(a.vs()[1])))) }
pub open spec fn local_any(a: Src, ev: Ev, e: R) -> bool { folded(a) && ev == fold_ev(a) || exists|m: int| 0 <= m < corners(a) && #[trigger] local_ev(a, m, ev, e) }
// of two segments that do not follow each other
pub open spec fn apart(a: Src, i: int, h: int) -> bool { let n = a.vs().len(); i != h && i != nxt(n, h) && nxt(n, i) != h && nxt(n, i) != nxt(n, h) && 0 <= i < segc(n, a.cl()) && 0 <= h < segc(n, a.cl()) }
pub open spec fn both_ends(a: Src, i: int, h: int, p: Vector2, e: real) -> bool { let n = a.vs().len(); near(ps(a.vs()[nxt(n, i)]), p, e) && near(ps(a.vs()[nxt(n, h)]), p, e) }
pub open spec fn global_ev(a: Src, i: int, h: int, ev: Ev, e: R) -> bool { match ev {
    Ev::B(b) => b == bi(i, h, b.point) && pts(pair(a, a, i, h, e)).contains(b.point) && !both_ends(a, i, h, b.point, e.v()),
    Ev::O(o) => o == oi(i, h, (o.point1, o.point2)) && overlap(pair(a, a, i, h, e)) == Some((o.point1, o.point2)) && !both_ends(a, i, h, o.point1, e.v()),
} }
pub open spec fn of1(ev: Ev) -> int { match ev { Ev::B(b) => b.start_index1 as int, Ev::O(o) => o.start_index1 as int } }
pub open spec fn of2(ev: Ev) -> int { match ev { Ev::B(b) => b.start_index2 as int, Ev::O(o) => o.start_index2 as int } }
pub open spec fn global_any(a: Src, ev: Ev, e: R) -> bool { apart(a, of1(ev), of2(ev)) && global_ev(a, of1(ev), of2(ev), ev, e) }
pub open spec fn global_done(a: Src, l0: Seq<Ev>, l: Seq<Ev>, i: int, h: int, e: R) -> bool { forall|ev: Ev| #[trigger] global_ev(a, i, h, ev, e) ==> added(l0, l, ev) }
pub broadcast proof fn global_done_push(a: Src, l0: Seq<Ev>, l: Seq<Ev>, w: Ev, i: int, h: int, e: R)
    requires l0.len() <= l.len(), global_done(a, l0, l, i, h, e)
    ensures #[trigger] global_done(a, l0, l.push(w), i, h, e)
{ broadcast use added_push; }
'''

F = []


def f(props, where, name, **k):
    F.append(dict(props=props.split(), where=where, name=name, **k))


INT = ('polyline/internal/pline_intersects.rs', None, '')
PP = {'P': 'Src', 'O': 'Src'}

A, B, E = '*pline1', '*pline2', 'options.pos_equal_eps'
BAS, OVR = 'result.basic_intersects@', 'result.overlapping_intersects@'
SND = ['forall|m: int| 0 <= m < %s.len() ==> basic_ok(%s, %s, #[trigger] %s[m], %s)' % (BAS, A, B, BAS, E),
       'forall|m: int| 0 <= m < %s.len() ==> over_ok(%s, %s, #[trigger] %s[m], %s)' % (OVR, A, B, OVR, E),
       'forall|x: usize| #![trigger possible_duplicates1.st().contains(x)] #![trigger marked1(%s, %s, x as int, %s.v())] possible_duplicates1.st().contains(x) == marked1(%s, %s, x as int, %s.v())' % (A, OVR, E, A, OVR, E),
       'forall|x: usize| #![trigger possible_duplicates2.st().contains(x)] #![trigger marked2(%s, %s, x as int, %s.v())] possible_duplicates2.st().contains(x) == marked2(%s, %s, x as int, %s.v())' % (B, OVR, E, B, OVR, E)]
DONE = ['forall|i: int, j: int, p: Vector2| #[trigger] meets({A}, {B}, i, j, p, {E}) && j < {k} && reach({A}, {B}, i, j, {E}.v()) ==> {BAS}.contains(bi(i, j, p))',
        'forall|i: int, j: int| #[trigger] overlaps({A}, {B}, i, j, {E}) && j < {k} && reach({A}, {B}, i, j, {E}.v()) ==> {OVR}.contains(oi(i, j, overlap(pair({A}, {B}, i, j, {E})).unwrap()))']
IN = ['forall|h: int, p: Vector2| 0 <= h < $i && #[trigger] meets({A}, {B}, $s[h] as int, i2 as int, p, {E}) ==> {BAS}.contains(bi($s[h] as int, i2 as int, p))',
      'forall|h: int| 0 <= h < $i && #[trigger] overlaps({A}, {B}, $s[h] as int, i2 as int, {E}) ==> {OVR}.contains(oi($s[h] as int, i2 as int, overlap(pair({A}, {B}, $s[h] as int, i2 as int, {E})).unwrap()))']


def fm(l, **k):
    return [x.replace('{A}', A).replace('{B}', B).replace('{E}', E).replace('{BAS}', BAS).replace('{OVR}', OVR).replace('{k}', k.get('k', '')) for x in l]

LINK = fm(['''proof {
    assert forall|i: int| 0 <= i < segc(pline1.vs().len(), pline1.cl()) && #[trigger] reach({A}, {B}, i, i2 as int, {E}.v()) implies it__2.sq().contains(i as usize) by {
        let x = i as usize; assert(pline1_aabb_index.boxes()[x as int] == tup(fbox({A}, i))); assert(bb == fbox({B}, i2 as int));
    }
    assert forall|i: int, p: Vector2| #[trigger] meets({A}, {B}, i, i2 as int, p, {E}) && reach({A}, {B}, i, i2 as int, {E}.v()) implies {BAS}.contains(bi(i, i2 as int, p)) by {
        let h = choose|h: int| 0 <= h < it__2.sq().len() && it__2.sq()[h] == i as usize; assert(meets({A}, {B}, it__2.sq()[h] as int, i2 as int, p, {E}));
    }
    assert forall|i: int| #[trigger] overlaps({A}, {B}, i, i2 as int, {E}) && reach({A}, {B}, i, i2 as int, {E}.v()) implies {OVR}.contains(oi(i, i2 as int, overlap(pair({A}, {B}, i, i2 as int, {E})).unwrap())) by {
        let h = choose|h: int| 0 <= h < it__2.sq().len() && it__2.sq()[h] == i as usize; assert(overlaps({A}, {B}, it__2.sq()[h] as int, i2 as int, {E}));
    }
}'''])[0]

f('C15', INT, 'find_intersects', gen=PP, visitors=['query_visitor'], heavy=True,
  sig=[(r'&FindIntersectsOptions<\s*\w+\s*>', '&FindIntersectsOptions')],
  rewrite=[(r'(result\s*\.\s*basic_intersects)\s*\.\s*iter\(\)', r'vec_iter(&\1)'), (r'let mut query_stack = Vec::with_capacity\(8\);', '')],
  requires=['options.pline1_aabb_index.is_some() ==> indexed(*options.pline1_aabb_index.unwrap(), *pline1)'],
  closures={'skip_intr_at_end': dict(ret='(q: bool)', spec='ensures q == (at_end(*pline1, i1 as int, intr, pos_equal_eps.v()) || at_end(*pline2, i2 as int, intr, pos_equal_eps.v()))')},
  ensures=['forall|m: int| 0 <= m < r.basic_intersects@.len() ==> basic_ok(*pline1, *pline2, #[trigger] r.basic_intersects@[m], options.pos_equal_eps) && !repeated(*pline1, *pline2, r.overlapping_intersects@, r.basic_intersects@[m], options.pos_equal_eps.v())',
    'forall|m: int| 0 <= m < r.overlapping_intersects@.len() ==> over_ok(*pline1, *pline2, #[trigger] r.overlapping_intersects@[m], options.pos_equal_eps)',
    '''forall|i: int, j: int, p: Vector2| #[trigger] meets(*pline1, *pline2, i, j, p, options.pos_equal_eps) && reach(*pline1, *pline2, i, j, options.pos_equal_eps.v())
        ==> r.basic_intersects@.contains(bi(i, j, p)) || repeated(*pline1, *pline2, r.overlapping_intersects@, bi(i, j, p), options.pos_equal_eps.v())''',
    '''forall|i: int, j: int| #[trigger] overlaps(*pline1, *pline2, i, j, options.pos_equal_eps) && reach(*pline1, *pline2, i, j, options.pos_equal_eps.v())
        ==> r.overlapping_intersects@.contains(oi(i, j, overlap(pair(*pline1, *pline2, i, j, options.pos_equal_eps)).unwrap()))'''],
  top='broadcast use {marked_push1, marked_push2, contains_push};',
  loops={1: dict(bottom=LINK, inv=['$s == seg_idx(pline2.vs().len(), pline2.cl())', 'indexed(*pline1_aabb_index, *pline1)', 'pos_equal_eps == options.pos_equal_eps'] + SND + fm(DONE, k='$i')),
         2: dict(inv=['(i2 as int) < segc(pline2.vs().len(), pline2.cl())', 'forall|k: int| 0 <= k < $s.len() ==> (#[trigger] $s[k]) < segc(pline1.vs().len(), pline1.cl())'] + SND + fm(DONE, k='i2') + fm(IN)),
         3: dict(inv=['$s.len() == result.basic_intersects@.len()', 'forall|i: int| 0 <= i < $s.len() ==> *(#[trigger] $s[i]) == result.basic_intersects@[i]',
              'forall|m: int| 0 <= m < final_basic_intrs@.len() ==> basic_ok(%s, %s, #[trigger] final_basic_intrs@[m], %s) && !repeated(%s, %s, %s, final_basic_intrs@[m], %s.v())' % (A, B, E, A, B, OVR, E),
              'forall|h: int| 0 <= h < $i ==> final_basic_intrs@.contains(#[trigger] result.basic_intersects@[h]) || repeated(%s, %s, %s, result.basic_intersects@[h], %s.v())' % (A, B, OVR, E)])})

GV = {'P': 'Src', 'V': 'Vis', 'C': 'Ctl'}
VL0, VL = 'old(visitor).log()', 'final(visitor).log()'
f('C15', INT, 'visit_local_self_intersects', gen=GV, requires=['!old(visitor).stopped()'],
  sig=[('polyline: &Src', 'polyline: &Src')],
  ensures=['%s.len() <= %s.len()' % (VL0, VL), 'final(visitor).stopped() == r.brk()',
    'forall|t: int| %s.len() <= t < %s.len() ==> local_any(*polyline, #[trigger] %s[t], pos_equal_eps)' % (VL0, VL, VL),
    '!r.brk() && folded(*polyline) ==> added(%s, %s, fold_ev(*polyline))' % (VL0, VL),
    '!r.brk() ==> forall|m: int, ev: Ev| 0 <= m < corners(*polyline) && #[trigger] local_ev(*polyline, m, ev, pos_equal_eps) ==> added(%s, %s, ev)' % (VL0, VL)],
  top='broadcast use {added_push, added_ext1, added_ext2};',
  lift={'visit_indexes': dict(caps='polyline: &Src, visitor: &mut Vis, pos_equal_eps: R', args='polyline, visitor, pos_equal_eps', ret='Ctl',
    requires=['!old(visitor).stopped()', 'polyline.vs().len() >= 3', '0 <= i < polyline.vs().len()', 'j == nxt(polyline.vs().len(), i as int)', 'k == nxt(polyline.vs().len(), j as int)'],
    ensures=['%s.len() <= %s.len()' % (VL0, VL), 'final(visitor).stopped() == r.brk()',
      'ext(%s, %s)' % (VL0, VL),
      'forall|t: int| %s.len() <= t < %s.len() ==> local_ev(*polyline, i as int, #[trigger] %s[t], pos_equal_eps)' % (VL0, VL, VL),
      '!r.brk() ==> forall|ev: Ev| #[trigger] local_ev(*polyline, i as int, ev, pos_equal_eps) ==> added(%s, %s, ev)' % (VL0, VL)],
    top='broadcast use {added_push, contains_push};')},
  loops={1: dict(inv=['2 <= $i', '!visitor.stopped()', 'old(visitor).log().len() <= visitor.log().len()',
      'forall|t: int| old(visitor).log().len() <= t < visitor.log().len() ==> local_any(*polyline, #[trigger] visitor.log()[t], pos_equal_eps)',
      'forall|m: int, ev: Ev| 0 <= m < $i - 2 && #[trigger] local_ev(*polyline, m, ev, pos_equal_eps) ==> added(old(visitor).log(), visitor.log(), ev)'])})

PL, L0, L1 = '*polyline', 'old(visitor).log()', 'visitor.log()'
GSOUND = 'forall|t: int| %s.len() <= t < %s.len() ==> global_any(*polyline, #[trigger] %s[t], pos_equal_eps)'
GDONE = 'global_done(*polyline, %s, %s, {i}, {h}, pos_equal_eps) || global_done(*polyline, %s, %s, {h}, {i}, pos_equal_eps)'
GPAIR = GDONE % (L0, L1, L0, L1)
GVISITED = '!cf.brk() ==> forall|x: usize, y: usize| #[trigger] visited_pairs.st().contains((x, y)) ==> global_done(*polyline, %s, %s, x as int, y as int, pos_equal_eps)' % (L0, L1)
GLINK = '''proof { if !cf.brk() {
    assert forall|h: int| apart(*polyline, i as int, h) && #[trigger] reach(*polyline, *polyline, h, i as int, pos_equal_eps.v()) implies %s by {
        let x = h as usize; assert(aabb_index.boxes()[x as int] == tup(fbox(*polyline, h))); assert(tup(aabb) == tup(fbox(*polyline, i as int))); assert(it__2.sq().contains(x));
        let k = choose|k: int| 0 <= k < it__2.sq().len() && it__2.sq()[k] == x; assert(apart(*polyline, i as int, it__2.sq()[k] as int));
    }
} }''' % GPAIR.format(i='i as int', h='h')
GEND = '''proof { if !cf.brk() {
    assert forall|i: int, h: int| apart(*polyline, i, h) && #[trigger] reach(*polyline, *polyline, i, h, pos_equal_eps.v()) implies %s by {
        let x = h as usize; let w = (x, boxof(aabb_index.boxes()[x as int])); assert(it__1.sq().contains(w));
        let k = choose|k: int| 0 <= k < it__1.sq().len() && it__1.sq()[k] == w; assert(it__1.sq()[k].0 as int == h); assert(apart(*polyline, h, i));
    }
} } cf''' % GPAIR.format(i='i', h='h')
f('C15', INT, 'visit_global_self_intersects', gen=GV, visitors=['query_visitor'],
  rewrite=[(r'for\s*\(\s*&(\w+)\s*,\s*(\w+)\s*\)\s*in\s+(\w+)\s*\.\s*item_indices\(\)\s*\.\s*iter\(\)\s*\.\s*zip\(\s*\3\s*\.\s*item_boxes\(\)\s*\.\s*iter\(\)\s*\)', r'for (\1, \2) in \3.items()'),
           (r'let mut query_stack = Vec::with_capacity\(8\);', ''), (r'\bcf\s*$', GEND)],
  requires=['!old(visitor).stopped()', 'indexed(*aabb_index, *polyline)'],
  closures={'skip_intr_at_end': dict(ret='(q: bool)', spec='ensures q == both_ends(*polyline, i as int, hit_i as int, intr, pos_equal_eps.v())')},
  ensures=['%s.len() <= %s.len()' % (VL0, VL), 'final(visitor).stopped() == r.brk()',
    GSOUND % (VL0, VL, VL),
    '!r.brk() ==> forall|i: int, h: int| apart(*polyline, i, h) && #[trigger] reach(*polyline, *polyline, i, h, pos_equal_eps.v()) ==> ' + (GDONE % (VL0, VL, VL0, VL)).format(i='i', h='h')],
  top='broadcast use {added_push, contains_push, global_done_push};',
  loops={1: dict(bottom=GLINK, xinv=['!cf.brk()'], inv=['cf.brk() == visitor.stopped()', '%s.len() <= %s.len()' % (L0, L1), GSOUND % (L0, L1, L1), GVISITED,
        '!cf.brk() ==> forall|k: int, h: int| 0 <= k < $i && apart(*polyline, $s[k].0 as int, h) && #[trigger] reach(*polyline, *polyline, h, $s[k].0 as int, pos_equal_eps.v()) ==> ' + GPAIR.format(i='$s[k].0 as int', h='h')],
        ens=['cf.brk() || $i == $n']),
    2: dict(xinv=['!cf.brk()'], inv=['!cf.brk() ==> forall|k: int, h: int| 0 <= k < i__1 - 1 && apart(*polyline, it__1.sq()[k].0 as int, h) && #[trigger] reach(*polyline, *polyline, h, it__1.sq()[k].0 as int, pos_equal_eps.v()) ==> ' + GPAIR.format(i='it__1.sq()[k].0 as int', h='h'),
        'cf.brk() == visitor.stopped()', 'i < polyline.vs().len()', '%s.len() <= %s.len()' % (L0, L1), GSOUND % (L0, L1, L1), GVISITED,
        '!cf.brk() ==> forall|k: int| 0 <= k < $i && #[trigger] apart(*polyline, i as int, $s[k] as int) ==> ' + GPAIR.format(i='i as int', h='$s[k] as int')],
        ens=['cf.brk() || $i == $n'])})
