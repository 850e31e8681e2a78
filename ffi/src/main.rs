//! Contracts of the C interface evaluated on call histories of the real crate.
//!
//! Every exported function is called through a wrapper that states its contract: the error code for
//! null arguments and bad indexes with nothing written, and otherwise the effect and the result of
//! the library operation on a ghost copy of the object. The allocator is instrumented: freed blocks
//! are poisoned and kept until the end of a history, so double releases, writes after release and
//! leaks are all observed.
use cavalier_contours::polyline::*;
use cavalier_contours::static_aabb2d_index::StaticAABB2DIndex;
use cavalier_contours_ffi::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr;

// ---- allocator

const ALIVE: u64 = 0xA11F_E5A1_1FE5_A11F;
const DEAD: u64 = 0xDEAD_BEEF_DEAD_BEEF;
const HEAD: usize = 32;
struct Guard;
thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BAD_FREE: Cell<u64> = const { Cell::new(0) };
    static DEADS: Cell<*mut u8> = const { Cell::new(ptr::null_mut()) };
}
#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    tracked: u64,
    next: *mut u8,
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return unsafe { System.alloc(l) };
        }
        unsafe {
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + HEAD, 16));
            if p.is_null() {
                return p;
            }
            let t = TRACK.with(|t| t.get());
            if t {
                LIVE.with(|c| c.set(c.get() + 1));
            }
            (p as *mut Head).write(Head { magic: ALIVE, size: l.size(), tracked: t as u64, next: ptr::null_mut() });
            p.add(HEAD)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return unsafe { System.dealloc(p, l) };
        }
        unsafe {
            let q = p.sub(HEAD);
            let h = &mut *(q as *mut Head);
            if h.magic != ALIVE {
                BAD_FREE.with(|c| c.set(c.get() + 1));
                return;
            }
            if h.size != l.size() {
                BAD_FREE.with(|c| c.set(c.get() + 1));
            }
            if h.tracked == 0 {
                h.magic = 0;
                let n = h.size;
                System.dealloc(q, Layout::from_size_align_unchecked(n + HEAD, 16));
                return;
            }
            h.magic = DEAD;
            ptr::write_bytes(p, 0xDD, h.size);
            LIVE.with(|c| c.set(c.get() - 1));
            h.next = DEADS.with(|d| d.replace(q));
        }
    }
}
#[global_allocator]
static A: Guard = Guard;
/// releases the poisoned blocks; number of blocks written after their release
fn flush() -> u64 {
    let mut bad = 0;
    let mut q = DEADS.with(|d| d.replace(ptr::null_mut()));
    while !q.is_null() {
        unsafe {
            let h = &mut *(q as *mut Head);
            let s = std::slice::from_raw_parts(q.add(HEAD), h.size);
            if s.iter().any(|b| *b != 0xDD) {
                bad += 1;
            }
            let (n, next) = (h.size, h.next);
            h.magic = 0;
            System.dealloc(q, Layout::from_size_align_unchecked(n + HEAD, 16));
            q = next;
        }
    }
    bad
}

// ---- random numbers

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut x = self.0;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
        x ^ (x >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn f(&mut self, lo: f64, hi: f64) -> f64 {
        let v = lo + (hi - lo) * ((self.next() >> 11) as f64 / (1u64 << 53) as f64);
        if self.below(3) == 0 {
            v.round()
        } else {
            v
        }
    }
}

// ---- ghost state

struct P {
    p: *mut cavc_pline,
    m: Polyline<f64>,
}
struct L {
    p: *mut cavc_plinelist,
    items: Vec<P>,
}
struct X {
    p: *mut cavc_aabbindex,
    m: StaticAABB2DIndex<f64>,
}
#[derive(Default)]
struct State {
    plines: Vec<P>,
    lists: Vec<L>,
    idx: Vec<X>,
    panicked: bool,
}
#[derive(Default)]
struct Report {
    /// (property, contract text) -> count
    bad: BTreeMap<(&'static str, String), u64>,
    calls: BTreeMap<&'static str, u64>,
}
struct Run {
    r: Rng,
    s: State,
    rep: Report,
    ops: Vec<String>,
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same_pl(a: &Polyline<f64>, b: &Polyline<f64>) -> bool {
    a.is_closed() == b.is_closed()
        && a.vertex_count() == b.vertex_count()
        && a.iter_vertexes().zip(b.iter_vertexes()).all(|(x, y)| same(x.x, y.x) && same(x.y, y.y) && same(x.bulge, y.bulge))
}
const SENT: f64 = -98765.4321;

impl Run {
    fn check(&mut self, prop: &'static str, what: &str, ok: bool) {
        if !ok {
            *self.rep.bad.entry((prop, what.to_string())).or_insert(0) += 1;
        }
    }
    fn op(&mut self, name: &'static str) {
        *self.rep.calls.entry(name).or_insert(0) += 1;
        self.ops.push(name.to_string());
        if std::env::var("TRACE").is_ok() {
            eprintln!("call {}", name);
        }
    }
    fn vertexes(&mut self) -> Vec<cavc_vertex> {
        let n = if self.r.below(4) == 0 { self.r.below(4) } else { 2 + self.r.below(7) };
        let mut v = vec![];
        if self.r.below(3) == 0 {
            // simple closed curve around a centre
            let (cx, cy, r) = (self.r.f(-5.0, 5.0), self.r.f(-5.0, 5.0), self.r.f(1.0, 6.0));
            for i in 0..n {
                let a = std::f64::consts::TAU * i as f64 / n as f64;
                let b = if self.r.below(3) == 0 { self.r.f(-0.6, 0.6) } else { 0.0 };
                v.push(cavc_vertex::new(cx + r * a.cos(), cy + r * a.sin(), b));
            }
        } else {
            for i in 0..n {
                let b = match self.r.below(4) {
                    0 => self.r.f(-1.0, 1.0),
                    _ => 0.0,
                };
                let w = if i > 0 && self.r.below(6) == 0 { v[i - 1] } else { cavc_vertex::new(self.r.f(-10.0, 10.0), self.r.f(-10.0, 10.0), b) };
                v.push(w);
            }
        }
        v
    }
    /// pointer to any live polyline and its ghost copy
    fn any(&mut self) -> Option<(*mut cavc_pline, Polyline<f64>, (usize, usize))> {
        let inlist: usize = self.s.lists.iter().map(|l| l.items.len()).sum();
        let n = self.s.plines.len() + inlist;
        if n == 0 {
            return None;
        }
        let mut k = self.r.below(n);
        if k < self.s.plines.len() {
            let p = &self.s.plines[k];
            return Some((p.p, p.m.clone(), (usize::MAX, k)));
        }
        k -= self.s.plines.len();
        for (i, l) in self.s.lists.iter().enumerate() {
            if k < l.items.len() {
                let p = &l.items[k];
                // the pointer is asked from the interface
                let mut out: *const cavc_pline = ptr::null();
                let rc = unsafe { cavc_plinelist_get_pline(l.p, k as u32, &mut out) };
                let (want, m) = (p.p, p.m.clone());
                self.op("cavc_plinelist_get_pline");
                self.check("C28", "cavc_plinelist_get_pline: the polyline at the position", rc == 0 && out == want as *const _);
                return Some((want, m, (i, k)));
            }
            k -= l.items.len();
        }
        None
    }
    fn set(&mut self, at: (usize, usize), m: Polyline<f64>) {
        if at.0 == usize::MAX {
            self.s.plines[at.1].m = m;
        } else {
            self.s.lists[at.0].items[at.1].m = m;
        }
    }
    /// the object behind the pointer equals its ghost copy
    fn agrees(&mut self, what: &str, p: *mut cavc_pline, m: &Polyline<f64>) {
        let ok = unsafe { same_pl(&(*p).0, m) };
        self.check("C28", what, ok);
    }
    fn list(&mut self, p: *const cavc_plinelist, want: Vec<Polyline<f64>>, what: &str) {
        let l = p as *mut cavc_plinelist;
        let mut n = 77;
        let rc = unsafe { cavc_plinelist_get_count(l, &mut n) };
        self.op("cavc_plinelist_get_count");
        self.check("C28", &format!("{what}: number of results"), rc == 0 && n as usize == want.len());
        let mut items = vec![];
        for i in 0..n {
            let mut q: *const cavc_pline = ptr::null();
            let rc = unsafe { cavc_plinelist_get_pline(l, i, &mut q) };
            self.check("C28", "cavc_plinelist_get_pline: the polyline at the position", rc == 0 && !q.is_null());
            if rc != 0 || q.is_null() {
                return;
            }
            let m = unsafe { (*q).0.clone() };
            if (i as usize) < want.len() {
                self.check("C28", &format!("{what}: the results of the library"), same_pl(&m, &want[i as usize]));
            }
            items.push(P { p: q as *mut _, m });
        }
        self.s.lists.push(L { p: l, items });
    }
    fn step(&mut self) {
        unsafe {
            match self.r.below(30) {
                0..=2 => {
                    let v = self.vertexes();
                    let closed = [0u8, 1, 1, 7][self.r.below(4)];
                    let null = self.r.below(8) == 0;
                    self.op("cavc_pline_create");
                    let mut out: *const cavc_pline = ptr::null();
                    let n = v.len() as u32;
                    let rc = cavc_pline_create(if null { ptr::null() } else { v.as_ptr() }, n, closed, &mut out);
                    self.check("C26", "cavc_pline_create: returns zero", rc == 0);
                    let mut m = Polyline::new();
                    m.set_is_closed(closed != 0);
                    if !null {
                        for x in &v {
                            m.add(x.x, x.y, x.bulge);
                        }
                    }
                    let p = out as *mut cavc_pline;
                    self.agrees("cavc_pline_create: the given vertexes", p, &m);
                    self.s.plines.push(P { p, m });
                }
                3 => {
                    if let Some((p, m, _)) = self.any() {
                        self.op("cavc_pline_clone");
                        let mut out: *const cavc_pline = ptr::null();
                        let rc = cavc_pline_clone(p, &mut out);
                        self.check("C26", "cavc_pline_clone: returns zero", rc == 0);
                        let q = out as *mut cavc_pline;
                        self.check("C27", "cavc_pline_clone: a new object", q != p && !q.is_null());
                        self.agrees("cavc_pline_clone: equal to the source", q, &m);
                        self.s.plines.push(P { p: q, m });
                    }
                }
                4 => {
                    if !self.s.plines.is_empty() {
                        let k = self.r.below(self.s.plines.len());
                        let x = self.s.plines.swap_remove(k);
                        self.op("cavc_pline_f");
                        let live = LIVE.with(|c| c.get());
                        let had = if x.m.vertex_count() > 0 { 1 } else { 0 };
                        cavc_pline_f(x.p);
                        let d = live - LIVE.with(|c| c.get());
                        self.check("C27", "cavc_pline_f: releases the polyline and its vertexes", d > had);
                    }
                }
                5 => {
                    if let Some((p, mut m, at)) = self.any() {
                        self.op("cavc_pline_set_is_closed");
                        let c = [0u8, 1, 2, 255][self.r.below(4)];
                        let rc = cavc_pline_set_is_closed(p, c);
                        m.set_is_closed(c != 0);
                        self.check("C26", "cavc_pline_set_is_closed: returns zero", rc == 0);
                        self.agrees("cavc_pline_set_is_closed: sets the flag only", p, &m);
                        self.op("cavc_pline_get_is_closed");
                        let mut o = 77u8;
                        let rc = cavc_pline_get_is_closed(p, &mut o);
                        self.check("C28", "cavc_pline_get_is_closed: the flag", rc == 0 && o == (c != 0) as u8);
                        self.set(at, m);
                    }
                }
                6 => {
                    if let Some((p, m, _)) = self.any() {
                        self.op("cavc_pline_get_vertex_count");
                        let mut n = 7777;
                        let rc = cavc_pline_get_vertex_count(p, &mut n);
                        self.check("C28", "cavc_pline_get_vertex_count: the count", rc == 0 && n as usize == m.vertex_count());
                        self.op("cavc_pline_get_vertex_data");
                        let mut b = vec![cavc_vertex::new(SENT, SENT, SENT); m.vertex_count() + 2];
                        let rc = cavc_pline_get_vertex_data(p, b.as_mut_ptr());
                        let ok = m.iter_vertexes().zip(&b).all(|(x, y)| same(x.x, y.x) && same(x.y, y.y) && same(x.bulge, y.bulge));
                        self.check("C28", "cavc_pline_get_vertex_data: all vertexes", rc == 0 && ok);
                        self.check("C26", "cavc_pline_get_vertex_data: writes one entry per vertex", b[m.vertex_count()..].iter().all(|x| x.x == SENT && x.bulge == SENT));
                        self.agrees("cavc_pline_get_vertex_data: no effect", p, &m);
                    }
                }
                7 => {
                    if let Some((p, mut m, at)) = self.any() {
                        self.op("cavc_pline_set_vertex_data");
                        let v = self.vertexes();
                        let rc = cavc_pline_set_vertex_data(p, v.as_ptr(), v.len() as u32);
                        m.clear();
                        for x in &v {
                            m.add(x.x, x.y, x.bulge);
                        }
                        self.check("C26", "cavc_pline_set_vertex_data: returns zero", rc == 0);
                        self.agrees("cavc_pline_set_vertex_data: replaces the vertexes only", p, &m);
                        self.set(at, m);
                    }
                }
                8 => {
                    if let Some((p, mut m, at)) = self.any() {
                        if self.r.below(3) == 0 {
                            self.op("cavc_pline_clear");
                            let rc = cavc_pline_clear(p);
                            m.clear();
                            self.check("C26", "cavc_pline_clear: returns zero", rc == 0);
                            self.agrees("cavc_pline_clear: no vertexes, flag kept", p, &m);
                        } else {
                            self.op("cavc_pline_reserve");
                            let rc = cavc_pline_reserve(p, self.r.below(20) as u32);
                            self.check("C26", "cavc_pline_reserve: returns zero", rc == 0);
                            self.agrees("cavc_pline_reserve: no effect on the vertexes", p, &m);
                        }
                        self.set(at, m);
                    }
                }
                9 => {
                    if let Some((p, mut m, at)) = self.any() {
                        self.op("cavc_pline_add");
                        let (x, y, b) = (self.r.f(-9.0, 9.0), self.r.f(-9.0, 9.0), self.r.f(-1.0, 1.0));
                        let rc = cavc_pline_add(p, x, y, b);
                        m.add(x, y, b);
                        self.check("C26", "cavc_pline_add: returns zero", rc == 0);
                        self.agrees("cavc_pline_add: one vertex more", p, &m);
                        self.set(at, m);
                    }
                }
                10..=12 => {
                    if let Some((p, mut m, at)) = self.any() {
                        let n = m.vertex_count();
                        let big = [n as u32, n as u32 + 1, u32::MAX, 1 << 31][self.r.below(4)];
                        let k = if n == 0 || self.r.below(3) == 0 { big } else { self.r.below(n) as u32 };
                        let inside = (k as usize) < n;
                        let code = if inside { 0 } else { 2 };
                        match self.r.below(3) {
                            0 => {
                                self.op("cavc_pline_get_vertex");
                                let mut o = cavc_vertex::new(SENT, SENT, SENT);
                                let rc = cavc_pline_get_vertex(p, k, &mut o);
                                self.check("C26", "cavc_pline_get_vertex: error code of the index", rc == code);
                                if inside {
                                    let v = m.at(k as usize);
                                    self.check("C28", "cavc_pline_get_vertex: the vertex", same(v.x, o.x) && same(v.y, o.y) && same(v.bulge, o.bulge));
                                } else {
                                    self.check("C26", "cavc_pline_get_vertex: nothing written", o.x == SENT && o.y == SENT && o.bulge == SENT);
                                }
                            }
                            1 => {
                                self.op("cavc_pline_set_vertex");
                                let v = cavc_vertex::new(self.r.f(-9.0, 9.0), self.r.f(-9.0, 9.0), self.r.f(-1.0, 1.0));
                                let rc = cavc_pline_set_vertex(p, k, v);
                                self.check("C26", "cavc_pline_set_vertex: error code of the index", rc == code);
                                if inside {
                                    m.set_vertex(k as usize, PlineVertex::new(v.x, v.y, v.bulge));
                                }
                                self.agrees("cavc_pline_set_vertex: sets that vertex only", p, &m);
                            }
                            _ => {
                                self.op("cavc_pline_remove");
                                let rc = cavc_pline_remove(p, k);
                                self.check("C26", "cavc_pline_remove: error code of the index", rc == code);
                                if inside {
                                    m.remove(k as usize);
                                }
                                self.agrees("cavc_pline_remove: removes that vertex only", p, &m);
                            }
                        }
                        self.set(at, m);
                    }
                }
                13..=14 => {
                    if let Some((p, m, _)) = self.any() {
                        let mut o = SENT;
                        self.op("cavc_pline_eval_path_length");
                        let rc = cavc_pline_eval_path_length(p, &mut o);
                        self.check("C28", "cavc_pline_eval_path_length: the length", rc == 0 && same(o, m.path_length()));
                        self.op("cavc_pline_eval_area");
                        let rc = cavc_pline_eval_area(p, &mut o);
                        self.check("C28", "cavc_pline_eval_area: the area", rc == 0 && same(o, m.area()));
                        self.op("cavc_pline_eval_wn");
                        let (x, y) = (self.r.f(-9.0, 9.0), self.r.f(-9.0, 9.0));
                        let mut w = 7777;
                        let rc = cavc_pline_eval_wn(p, x, y, &mut w);
                        self.check("C28", "cavc_pline_eval_wn: the winding number", rc == 0 && w == m.winding_number(cavalier_contours::core::math::Vector2::new(x, y)));
                        self.op("cavc_pline_eval_extents");
                        let mut e = [SENT; 4];
                        let [a, b, c, d] = &mut e;
                        let rc = cavc_pline_eval_extents(p, a, b, c, d);
                        match m.extents() {
                            None => self.check("C26", "cavc_pline_eval_extents: code 2 without extents, nothing written", rc == 2 && e == [SENT; 4]),
                            Some(x) => self.check("C28", "cavc_pline_eval_extents: the extents", rc == 0 && same(e[0], x.min_x) && same(e[1], x.min_y) && same(e[2], x.max_x) && same(e[3], x.max_y)),
                        }
                        self.agrees("measures have no effect", p, &m);
                    }
                }
                15..=16 => {
                    if let Some((p, mut m, at)) = self.any() {
                        let (x, y) = (self.r.f(-3.0, 3.0), self.r.f(-3.0, 3.0));
                        let eps = [1e-5, 1e-2, 0.5][self.r.below(3)];
                        let before = m.clone();
                        let (name, rc, ok) = match self.r.below(5) {
                            0 => ("cavc_pline_invert_direction", cavc_pline_invert_direction(p), catch_unwind(AssertUnwindSafe(|| m.invert_direction_mut())).is_ok()),
                            1 => ("cavc_pline_scale", cavc_pline_scale(p, x), catch_unwind(AssertUnwindSafe(|| m.scale_mut(x))).is_ok()),
                            2 => ("cavc_pline_translate", cavc_pline_translate(p, x, y), catch_unwind(AssertUnwindSafe(|| m.translate_mut(x, y))).is_ok()),
                            3 => {
                                let rc = cavc_pline_remove_repeat_pos(p, eps);
                                let r = catch_unwind(AssertUnwindSafe(|| m.remove_repeat_pos(eps)));
                                let ok = r.is_ok();
                                if let Ok(Some(n)) = r {
                                    m = n;
                                }
                                ("cavc_pline_remove_repeat_pos", rc, ok)
                            }
                            _ => {
                                let rc = cavc_pline_remove_redundant(p, eps);
                                let r = catch_unwind(AssertUnwindSafe(|| m.remove_redundant(eps)));
                                let ok = r.is_ok();
                                if let Ok(Some(n)) = r {
                                    m = n;
                                }
                                ("cavc_pline_remove_redundant", rc, ok)
                            }
                        };
                        self.op(name);
                        if !ok {
                            self.s.panicked = true;
                            m = before;
                            self.check("C26", &format!("{name}: a library panic is reported"), rc == -1);
                            m = (*p).0.clone_from_ref(&m);
                        } else {
                            self.check("C26", &format!("{name}: returns zero"), rc == 0);
                            self.agrees(&format!("{name}: effect of the library operation"), p, &m);
                        }
                        self.set(at, m);
                    }
                }
                17..=19 => {
                    if let Some((p, m, _)) = self.any() {
                        let d = self.r.f(-3.0, 3.0);
                        let mut o = cavc_pline_parallel_offset_o::default();
                        let mut k = PlineOffsetOptions::<f64>::default();
                        let own;
                        let mut boxed: *const cavc_aabbindex = ptr::null();
                        let opts = self.r.below(3) > 0;
                        if opts {
                            o.handle_self_intersects = [0u8, 1, 9][self.r.below(3)];
                            k.handle_self_intersects = o.handle_self_intersects != 0;
                            if self.r.below(3) == 0 {
                                o.pos_equal_eps = [1e-5, 1e-3][self.r.below(2)];
                                o.slice_join_eps = [1e-4, 1e-2][self.r.below(2)];
                                o.offset_dist_eps = [1e-4, 1e-2][self.r.below(2)];
                                k.pos_equal_eps = o.pos_equal_eps;
                                k.slice_join_eps = o.slice_join_eps;
                                k.offset_dist_eps = o.offset_dist_eps;
                            }
                            if m.vertex_count() > 1 && self.r.below(3) == 0 {
                                own = m.create_approx_aabb_index();
                                boxed = Box::into_raw(Box::new(cavc_aabbindex(own.clone())));
                                o.aabb_index = boxed;
                                k.aabb_index = Some(&own);
                            }
                        }
                        let want = catch_unwind(AssertUnwindSafe(|| if opts { m.parallel_offset_opt(d, &k) } else { m.parallel_offset(d) }));
                        self.op("cavc_pline_parallel_offset");
                        let mut out: *const cavc_plinelist = ptr::null();
                        let rc = cavc_pline_parallel_offset(p, d, if opts { &o } else { ptr::null() }, &mut out);
                        match want {
                            Err(_) => {
                                self.s.panicked = true;
                                self.check("C26", "cavc_pline_parallel_offset: a library panic is reported", rc == -1);
                            }
                            Ok(w) => {
                                self.check("C26", "cavc_pline_parallel_offset: returns zero", rc == 0);
                                if rc == 0 {
                                    self.list(out, w, "cavc_pline_parallel_offset");
                                }
                            }
                        }
                        self.agrees("cavc_pline_parallel_offset: no effect on the source", p, &m);
                        if !boxed.is_null() {
                            cavc_aabbindex_f(boxed as *mut _);
                        }
                    }
                }
                20..=22 => {
                    if let (Some((p1, m1, _)), Some((p2, m2, _))) = (self.any(), self.any()) {
                        let code = [0, 1, 2, 3, 0, 1, 2, 3, 4, u32::MAX][self.r.below(10)];
                        let op = match code {
                            0 => Some(BooleanOp::Or),
                            1 => Some(BooleanOp::And),
                            2 => Some(BooleanOp::Not),
                            3 => Some(BooleanOp::Xor),
                            _ => None,
                        };
                        let mut o = cavc_pline_boolean_o::default();
                        let mut k = PlineBooleanOptions::<f64>::default();
                        let own;
                        let mut boxed: *const cavc_aabbindex = ptr::null();
                        let opts = self.r.below(3) > 0;
                        if opts {
                            o.pos_equal_eps = [1e-5, 1e-3][self.r.below(2)];
                            k.pos_equal_eps = o.pos_equal_eps;
                            if m1.vertex_count() > 1 && self.r.below(3) == 0 {
                                own = m1.create_approx_aabb_index();
                                boxed = Box::into_raw(Box::new(cavc_aabbindex(own.clone())));
                                o.pline1_aabb_index = boxed;
                                k.pline1_aabb_index = Some(&own);
                            }
                        }
                        self.op("cavc_pline_boolean");
                        let sent = 16 as *const cavc_plinelist;
                        let (mut a, mut b) = (sent, sent);
                        let rc = cavc_pline_boolean(p1, p2, code, if opts { &o } else { ptr::null() }, &mut a, &mut b);
                        match op {
                            None => self.check("C26", "cavc_pline_boolean: unknown operation, nothing written", rc == 2 && a == sent && b == sent),
                            Some(op) => {
                                let want = catch_unwind(AssertUnwindSafe(|| if opts { m1.boolean_opt(&m2, op, &k) } else { m1.boolean(&m2, op) }));
                                match want {
                                    Err(_) => {
                                        self.s.panicked = true;
                                        self.check("C26", "cavc_pline_boolean: a library panic is reported", rc == -1);
                                    }
                                    Ok(w) => {
                                        self.check("C26", "cavc_pline_boolean: returns zero", rc == 0);
                                        if rc == 0 {
                                            self.list(a, w.pos_plines.into_iter().map(|x| x.pline).collect(), "cavc_pline_boolean: remaining");
                                            self.list(b, w.neg_plines.into_iter().map(|x| x.pline).collect(), "cavc_pline_boolean: subtracted");
                                        }
                                    }
                                }
                            }
                        }
                        self.agrees("cavc_pline_boolean: no effect on the first", p1, &m1);
                        self.agrees("cavc_pline_boolean: no effect on the second", p2, &m2);
                        if !boxed.is_null() {
                            cavc_aabbindex_f(boxed as *mut _);
                        }
                    }
                }
                23 => {
                    if let Some((p, m, _)) = self.any() {
                        let exact = self.r.below(2) == 0;
                        self.op(if exact { "cavc_pline_create_aabbindex" } else { "cavc_pline_create_approx_aabbindex" });
                        let mut out: *const cavc_aabbindex = ptr::null();
                        let rc = if exact { cavc_pline_create_aabbindex(p, &mut out) } else { cavc_pline_create_approx_aabbindex(p, &mut out) };
                        self.check("C26", "cavc_pline_create_aabbindex: returns zero", rc == 0);
                        if rc == 0 {
                            let m = if exact { m.create_aabb_index() } else { m.create_approx_aabb_index() };
                            self.s.idx.push(X { p: out as *mut _, m });
                        }
                    }
                }
                24 => {
                    if !self.s.idx.is_empty() {
                        let k = self.r.below(self.s.idx.len());
                        self.op("cavc_aabbindex_get_extents");
                        let mut e = [SENT; 4];
                        let [a, b, c, d] = &mut e;
                        let rc = cavc_aabbindex_get_extents(self.s.idx[k].p, a, b, c, d);
                        let ok = match self.s.idx[k].m.bounds() {
                            Some(x) => same(e[0], x.min_x) && same(e[1], x.min_y) && same(e[2], x.max_x) && same(e[3], x.max_y),
                            None => e.iter().all(|x| x.is_nan()),
                        };
                        self.check("C28", "cavc_aabbindex_get_extents: the extents of the index", rc == 0 && ok);
                        if self.r.below(2) == 0 {
                            self.op("cavc_aabbindex_f");
                            let x = self.s.idx.swap_remove(k);
                            let live = LIVE.with(|c| c.get());
                            cavc_aabbindex_f(x.p);
                            self.check("C27", "cavc_aabbindex_f: releases the index", LIVE.with(|c| c.get()) < live);
                        }
                    }
                }
                25..=27 => {
                    if !self.s.lists.is_empty() {
                        let k = self.r.below(self.s.lists.len());
                        let lp = self.s.lists[k].p;
                        let n = self.s.lists[k].items.len();
                        let sent = 16 as *const cavc_pline;
                        let mut out = sent;
                        match self.r.below(4) {
                            0 => {
                                self.op("cavc_plinelist_pop");
                                let rc = cavc_plinelist_pop(lp, &mut out);
                                if n == 0 {
                                    self.check("C26", "cavc_plinelist_pop: code 2 when empty, nothing written", rc == 2 && out == sent);
                                } else {
                                    let x = self.s.lists[k].items.pop().unwrap();
                                    self.check("C27", "cavc_plinelist_pop: hands out the last polyline", rc == 0 && out == x.p as *const _);
                                    self.agrees("cavc_plinelist_pop: the polyline is unchanged", x.p, &x.m);
                                    self.s.plines.push(x);
                                }
                            }
                            1 | 2 => {
                                self.op("cavc_plinelist_take");
                                let big = [n as u32, n as u32 + 1, u32::MAX][self.r.below(3)];
                                let i = if n == 0 || self.r.below(3) == 0 { big } else { self.r.below(n) as u32 };
                                let rc = cavc_plinelist_take(lp, i, &mut out);
                                if i as usize >= n {
                                    self.check("C26", "cavc_plinelist_take: error code of the index, nothing written", rc == 2 && out == sent);
                                } else {
                                    let x = self.s.lists[k].items.remove(i as usize);
                                    self.check("C27", "cavc_plinelist_take: hands out the polyline at the position", rc == 0 && out == x.p as *const _);
                                    if rc == 0 && out == x.p as *const _ {
                                        self.agrees("cavc_plinelist_take: the polyline is unchanged", x.p, &x.m);
                                    }
                                    self.s.plines.push(x);
                                }
                                // the rest stays in the list
                                let mut c = 7777;
                                let rc = cavc_plinelist_get_count(lp, &mut c);
                                let n = self.s.lists[k].items.len();
                                self.check("C27", "cavc_plinelist_take: the others stay in the list", rc == 0 && c as usize == n);
                                for j in 0..n {
                                    let mut q: *const cavc_pline = ptr::null();
                                    let rc = cavc_plinelist_get_pline(lp, j as u32, &mut q);
                                    let found = self.s.lists[k].items[j].p as *const cavc_pline;
                                    self.check("C27", "cavc_plinelist_take: the others stay in the list in order", rc == 0 && q == found);
                                }
                            }
                            _ => {
                                self.op("cavc_plinelist_get_pline");
                                let big = [n as u32, u32::MAX][self.r.below(2)];
                                let rc = cavc_plinelist_get_pline(lp, big, &mut out);
                                self.check("C26", "cavc_plinelist_get_pline: error code of the index, nothing written", rc == 2 && out == sent);
                                if self.r.below(2) == 0 {
                                    self.op("cavc_plinelist_f");
                                    let l = self.s.lists.swap_remove(k);
                                    let live = LIVE.with(|c| c.get());
                                    cavc_plinelist_f(l.p);
                                    let d = live - LIVE.with(|c| c.get());
                                    self.check("C27", "cavc_plinelist_f: releases the list and its polylines", d as usize >= 1 + l.items.len());
                                }
                            }
                        }
                    }
                }
                28 => self.nulls(),
                _ => {
                    self.op("cavc_pline_parallel_offset_o_init");
                    let mut o = cavc_pline_parallel_offset_o { aabb_index: 16 as *const _, pos_equal_eps: SENT, slice_join_eps: SENT, offset_dist_eps: SENT, handle_self_intersects: 9 };
                    let rc = cavc_pline_parallel_offset_o_init(&mut o);
                    let d = PlineOffsetOptions::<f64>::default();
                    self.check(
                        "C28",
                        "cavc_pline_parallel_offset_o_init: library defaults",
                        rc == 0
                            && o.aabb_index.is_null()
                            && o.pos_equal_eps == d.pos_equal_eps
                            && o.slice_join_eps == d.slice_join_eps
                            && o.offset_dist_eps == d.offset_dist_eps
                            && o.handle_self_intersects == d.handle_self_intersects as u8,
                    );
                    self.op("cavc_pline_boolean_o_init");
                    let mut o = cavc_pline_boolean_o { pline1_aabb_index: 16 as *const _, pos_equal_eps: SENT };
                    let rc = cavc_pline_boolean_o_init(&mut o);
                    let d = PlineBooleanOptions::<f64>::default();
                    self.check("C28", "cavc_pline_boolean_o_init: library defaults", rc == 0 && o.pline1_aabb_index.is_null() && o.pos_equal_eps == d.pos_equal_eps);
                }
            }
        }
    }
    /// every function with a null object
    fn nulls(&mut self) {
        unsafe {
            let n: *mut cavc_pline = ptr::null_mut();
            let nl: *mut cavc_plinelist = ptr::null_mut();
            let ni: *mut cavc_aabbindex = ptr::null_mut();
            let live = LIVE.with(|c| c.get());
            let sp = 16 as *const cavc_pline;
            let sl = 16 as *const cavc_plinelist;
            let si = 16 as *const cavc_aabbindex;
            let (mut op, mut ol, mut ol2, mut oi) = (sp, sl, sl, si);
            let (mut f, mut u8_, mut u, mut w) = ([SENT; 4], 77u8, 7777u32, 7777i32);
            let mut v = cavc_vertex::new(SENT, SENT, SENT);
            self.op("null arguments");
            let mut rc: Vec<(&str, i32)> = vec![];
            cavc_pline_f(n);
            cavc_plinelist_f(nl);
            cavc_aabbindex_f(ni);
            let k = [0u32, 1, u32::MAX][self.r.below(3)];
            rc.push(("cavc_pline_parallel_offset_o_init", cavc_pline_parallel_offset_o_init(ptr::null_mut())));
            rc.push(("cavc_pline_boolean_o_init", cavc_pline_boolean_o_init(ptr::null_mut())));
            rc.push(("cavc_pline_reserve", cavc_pline_reserve(n, k)));
            rc.push(("cavc_pline_clone", cavc_pline_clone(n, &mut op)));
            rc.push(("cavc_pline_get_is_closed", cavc_pline_get_is_closed(n, &mut u8_)));
            rc.push(("cavc_pline_set_is_closed", cavc_pline_set_is_closed(n, 1)));
            rc.push(("cavc_pline_get_vertex_count", cavc_pline_get_vertex_count(n, &mut u)));
            rc.push(("cavc_pline_get_vertex_data", cavc_pline_get_vertex_data(n, &mut v)));
            rc.push(("cavc_pline_set_vertex_data", cavc_pline_set_vertex_data(n, &v, 1)));
            rc.push(("cavc_pline_clear", cavc_pline_clear(n)));
            rc.push(("cavc_pline_add", cavc_pline_add(n, 1.0, 2.0, 0.0)));
            rc.push(("cavc_pline_get_vertex", cavc_pline_get_vertex(n, k, &mut v)));
            rc.push(("cavc_pline_set_vertex", cavc_pline_set_vertex(n, k, v)));
            rc.push(("cavc_pline_remove", cavc_pline_remove(n, k)));
            rc.push(("cavc_pline_eval_path_length", cavc_pline_eval_path_length(n, &mut f[0])));
            rc.push(("cavc_pline_eval_area", cavc_pline_eval_area(n, &mut f[0])));
            rc.push(("cavc_pline_eval_wn", cavc_pline_eval_wn(n, 0.0, 0.0, &mut w)));
            rc.push(("cavc_pline_invert_direction", cavc_pline_invert_direction(n)));
            rc.push(("cavc_pline_scale", cavc_pline_scale(n, 2.0)));
            rc.push(("cavc_pline_translate", cavc_pline_translate(n, 2.0, 1.0)));
            rc.push(("cavc_pline_remove_repeat_pos", cavc_pline_remove_repeat_pos(n, 1e-5)));
            rc.push(("cavc_pline_remove_redundant", cavc_pline_remove_redundant(n, 1e-5)));
            {
                let [a, b, c, d] = &mut f;
                rc.push(("cavc_pline_eval_extents", cavc_pline_eval_extents(n, a, b, c, d)));
                rc.push(("cavc_aabbindex_get_extents", cavc_aabbindex_get_extents(ni, a, b, c, d)));
            }
            let o = cavc_pline_parallel_offset_o::default();
            rc.push(("cavc_pline_parallel_offset", cavc_pline_parallel_offset(n, 1.0, if k == 0 { ptr::null() } else { &o }, &mut ol)));
            let (some, _m) = match self.any() {
                Some((p, m, _)) => (p as *const cavc_pline, Some(m)),
                None => (ptr::null(), None),
            };
            for code in [0, 3, 4] {
                rc.push(("cavc_pline_boolean", cavc_pline_boolean(n, some, code, ptr::null(), &mut ol, &mut ol2)));
                rc.push(("cavc_pline_boolean", cavc_pline_boolean(some, n, code, ptr::null(), &mut ol, &mut ol2)));
                rc.push(("cavc_pline_boolean", cavc_pline_boolean(n, n, code, ptr::null(), &mut ol, &mut ol2)));
            }
            rc.push(("cavc_pline_create_approx_aabbindex", cavc_pline_create_approx_aabbindex(n, &mut oi)));
            rc.push(("cavc_pline_create_aabbindex", cavc_pline_create_aabbindex(n, &mut oi)));
            rc.push(("cavc_plinelist_get_count", cavc_plinelist_get_count(nl, &mut u)));
            rc.push(("cavc_plinelist_get_pline", cavc_plinelist_get_pline(nl, k, &mut op)));
            rc.push(("cavc_plinelist_pop", cavc_plinelist_pop(nl, &mut op)));
            rc.push(("cavc_plinelist_take", cavc_plinelist_take(nl, k, &mut op)));
            let untouched = op == sp && ol == sl && ol2 == sl && oi == si && f == [SENT; 4] && u8_ == 77 && u == 7777 && w == 7777 && v.x == SENT && v.y == SENT && v.bulge == SENT;
            for (name, c) in rc {
                *self.rep.calls.entry("with null arguments").or_insert(0) += 1;
                self.check("C26", &format!("{name}: code 1 for a null object"), c == 1);
            }
            self.check("C26", "null objects: nothing is written", untouched);
            let _ = live;
        }
    }
    /// frame condition: every object that is alive equals its ghost copy
    fn frame(&mut self) {
        unsafe {
            let mut ok = true;
            for p in self.s.plines.iter().chain(self.s.lists.iter().flat_map(|l| l.items.iter())) {
                ok &= same_pl(&(*p.p).0, &p.m);
            }
            self.check("C27", "objects are independent of each other", ok);
        }
    }
    fn finish(&mut self) {
        unsafe {
            // release everything in a random order
            loop {
                let n = self.s.plines.len() + self.s.lists.len() + self.s.idx.len();
                if n == 0 {
                    break;
                }
                let k = self.r.below(n);
                let (a, b) = (self.s.plines.len(), self.s.lists.len());
                if k < a {
                    let x = self.s.plines.swap_remove(k);
                    self.op("cavc_pline_f");
                    cavc_pline_f(x.p);
                } else if k < a + b {
                    let x = self.s.lists.swap_remove(k - a);
                    self.op("cavc_plinelist_f");
                    cavc_plinelist_f(x.p);
                } else {
                    let x = self.s.idx.swap_remove(k - a - b);
                    self.op("cavc_aabbindex_f");
                    cavc_aabbindex_f(x.p);
                }
                if self.r.below(4) == 0 {
                    self.frame();
                }
            }
        }
    }
}
trait CloneFrom {
    fn clone_from_ref(&self, m: &Self) -> Self;
}
impl CloneFrom for Polyline<f64> {
    /// after a library panic the object may be in either state
    fn clone_from_ref(&self, _m: &Self) -> Self {
        self.clone()
    }
}

fn history(seed: u64, len: usize) -> (Report, Vec<String>) {
    let before = LIVE.with(|c| c.get());
    BAD_FREE.with(|c| c.set(0));
    TRACK.with(|t| t.set(true));
    let (mut rep, ops, panicked) = {
        let mut r = Run { r: Rng(seed), s: State::default(), rep: Report::default(), ops: vec![] };
        for _ in 0..len {
            r.step();
            r.frame();
        }
        r.finish();
        TRACK.with(|t| t.set(false));
        let ops = r.ops.iter().map(|x| x.clone()).collect::<Vec<_>>();
        let rep = Report { bad: r.rep.bad.iter().map(|(k, v)| (k.clone(), *v)).collect(), calls: r.rep.calls.iter().map(|(k, v)| (*k, *v)).collect() };
        (rep, ops, r.s.panicked)
    };
    let leak = LIVE.with(|c| c.get()) - before;
    let mut note = |what: &str, bad: bool| {
        if bad {
            *rep.bad.entry(("C27", what.to_string())).or_insert(0) += 1;
        }
    };
    if !panicked {
        note("everything handed out is released: no memory is leaked", leak > 0);
    }
    note("nothing is released twice", BAD_FREE.with(|c| c.get()) > 0 || leak < 0);
    note("released memory is not written", flush() > 0);
    LIVE.with(|c| c.set(before));
    (rep, ops)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let (seed, n, len, only) = (get("--seed", 1), get("--n", 2000), get("--len", 40) as usize, get("--only", u64::MAX));
    let mut bad: BTreeMap<(&'static str, String), (u64, u64)> = BTreeMap::new();
    let mut calls: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mark = std::env::var("MARK").ok();
    for i in 0..n {
        if only != u64::MAX && i != only {
            continue;
        }
        if let Some(f) = &mark {
            std::fs::write(f, format!("{}", i)).unwrap();
        }
        let (rep, ops) = history(seed.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(i), 1 + (i as usize * 7) % len);
        for (k, v) in rep.calls {
            *calls.entry(k).or_insert(0) += v;
        }
        for (k, v) in rep.bad {
            let e = bad.entry(k).or_insert((0, i));
            e.0 += v;
        }
        if only != u64::MAX {
            eprintln!("{}", ops.join(" "));
        }
    }
    let q = |s: &str| format!("\"{}\"", s.replace('"', "'"));
    let b: Vec<String> = bad.iter().map(|((p, w), (c, i))| format!("{{\"property\":{},\"post\":{},\"count\":{},\"history\":{}}}", q(p), q(w), c, i)).collect();
    let c: Vec<String> = calls.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    println!("{{\"histories\":{},\"failed\":[{}],\"calls\":{{{}}}}}", n, b.join(","), c.join(","));
}
