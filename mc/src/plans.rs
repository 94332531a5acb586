//! Which families are explored for which property, per tier.
use crate::case::Gen;
use crate::engine::*;
use crate::families::*;
use crate::props::{self, space_of, CaseCheck};
use std::sync::Arc;

type G = Arc<dyn Gen>;

pub fn plan(prop: &str, tier: Tier) -> Option<Plan> {
    let q = tier == Tier::Quick;
    let mut assumptions = vec![
        "coordinates are exactly representable and of moderate range (|v| * 2^exp as printed with each case)".to_string(),
        "results of inputs outside of the listed families are not covered".to_string(),
    ];
    let on = |f: CaseCheck, gens: Vec<G>| -> Vec<Box<dyn Space>> { gens.into_iter().map(|g| space_of(g, f)).collect() };
    let spaces: Vec<Box<dyn Space>> = if cfg!(feature = "f32") {
        match prop {
            "C15" => {
                let mut g = geo(q, F32_MAPS);
                g.push(Arc::new(LargeGen { sizes: (8..if q { 100 } else { 600 }).collect(), shapes: F32_SHAPES.to_vec() }));
                g.extend(placed(q));
                on(props::all, g)
            }
            _ => return None,
        }
    } else {
        match prop {
            "C01" => with_large(q, props::completes, geo(q, ALL_MAPS)),
            "C02" => with_large(q, props::tiles, geo(q, ALL_MAPS)),
            "C03" => with_large(q, props::constraints, geo(q, ALL_MAPS)),
            "C04" => with_large(q, props::delaunay, geo(q, ALL_MAPS)),
            "C05" => with_large(q, props::vertices, geo(q, ALL_MAPS)),
            // C01 to C05 in one go, for experiments
            "probe-all" => with_large(q, props::all, geo(q, ALL_MAPS)),
            "probe-few" => on(props::all, geo(true, &named(ALL_MAPS, "id rot jit2 near zero grow"))),
            #[cfg(feature = "internals")]
            "probe-state" => {
                let g = || state_gens(true, &named(ALL_MAPS, "id rot jit2 near"));
                let mut v = on(crate::obs::sweep_state, g());
                v.extend(on(crate::obs::protocol, g()));
                v
            }
            #[cfg(feature = "internals")]
            "C10" => on(crate::obs::protocol, observer_gens(q)),
            #[cfg(feature = "internals")]
            "C11" => on(crate::obs::sweep_state, observer_gens(q)),
            #[cfg(feature = "internals")]
            "C17" => on(crate::obs::verification, observer_gens(q)),
            #[cfg(feature = "front")]
            "C19" => on(crate::front::front_queries, query_gens(q)),
            #[cfg(feature = "store")]
            "C20" => on(crate::store::store_queries, query_gens(q)),
            "C06" => on(props::outside, outside_gens(q)),
            "C07" => on(props::representation, small_gens(q, true)),
            "C08" => crate::api::builder_spaces(q),
            "C09" => crate::api::result_spaces(q),
            "C12" => crate::api::isolation_spaces(q),
            "C13" => crate::api::loader_spaces(q),
            #[cfg(feature = "ub")]
            "C16" => crate::mem::spaces(q),
            "C14" => on(props::similarity, small_gens(q, false)),
            "C18" => {
                assumptions.push("large inputs: one structured shape per size, not all inputs of that size".into());
                large(q)
            }
            _ => return None,
        }
    };
    Some(Plan { property: prop.into(), tier, spaces, assumptions, build: build(prop) })
}

fn build(prop: &str) -> String {
    format!(
        "{}{}{}",
        if cfg!(debug_assertions) { "checked" } else { "release" },
        if prop == "C18" { ", the crate under test at opt-level 0" } else { "" },
        if cfg!(feature = "f32") { " f32" } else { "" }
    )
}

/// the families, and some structured inputs of other orders of magnitude
fn with_large(q: bool, f: CaseCheck, gens: Vec<G>) -> Vec<Box<dyn Space>> {
    let mut v: Vec<Box<dyn Space>> = gens.into_iter().map(|g| space_of(g, f)).collect();
    let mut add = |sizes: Vec<i64>, shapes: &[&'static str]| {
        let gen = Arc::new(LargeGen { sizes, shapes: shapes.to_vec() });
        v.insert(0, Box::new(props::CaseSpace { gen, check: f, limit_s: 120, chunk: 1 }));
    };
    add((8..if q { 40 } else { 120 }).collect(), SHAPES);
    add(if q { vec![300, 2000] } else { vec![300, 700, 2000, 5000, 10000] }, SHAPES);
    add(vec![70000], FAST);
    for g in placed(q) {
        v.insert(0, space_of(g, f));
    }
    v
}

/// every structured input in every place, one generator per place
fn placed(q: bool) -> Vec<G> {
    let mut sizes: Vec<i64> = (8..if q { 100 } else { 400 }).collect();
    sizes.extend(if q { &[300, 1200, 4000][..] } else { &[700, 1200, 3000, 8000, 20000] });
    in_places(Arc::new(LargeGen { sizes, shapes: SHAPES.to_vec() }), PLACES)
}

fn in_places(base: G, places: &'static [&'static str]) -> Vec<G> {
    (0..places.len()).map(|k| Arc::new(PlacedGen { base: base.clone(), places: &places[k..k + 1] }) as G).collect()
}

/// one generator per map
fn each(maps: &[Map], v: &mut Vec<G>, f: impl Fn(&[Map]) -> G) {
    for m in maps {
        v.push(f(&[*m]));
    }
}

fn named(maps: &[Map], names: &str) -> Vec<Map> {
    maps.iter().filter(|m| names.split(' ').any(|n| n == m.name)).copied().collect()
}

const PERMS: [PermKind; 5] = [PermKind::Upper, PermKind::Lower, PermKind::Side, PermKind::Points, PermKind::Strip];

/// the families every geometric property is decided on
pub fn geo(q: bool, maps: &[Map]) -> Vec<G> {
    let mut v: Vec<G> = vec![];
    let few = named(maps, "id rot jit2 near");
    let p33 = Polys::grid(3, 3, 9);
    let p43 = Polys::grid(4, 3, 12);
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::Any)));
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::Any)));
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::Pair)));
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::All)));
    for k in PERMS {
        each(maps, &mut v, |m| Arc::new(PermGen { k: if q { 7 } else { 8 }, kind: k, maps: m.to_vec() }));
    }
    for t in 0..4 {
        each(maps, &mut v, |m| Arc::new(CombGen { k: 4, turn: t, maps: m.to_vec() }));
        each(maps, &mut v, |m| Arc::new(ChainGen { k: 7, m: 4, both: false, turn: t, maps: m.to_vec() }));
        each(&few, &mut v, |m| Arc::new(ChainGen { k: 4, m: 4, both: true, turn: t, maps: m.to_vec() }));
    }
    let h3 = Polys::grid(3, 3, 9);
    let h43 = Polys::grid(4, 3, if q { 8 } else { 12 });
    each(maps, &mut v, |m| Arc::new(FrameGen { polys: h3.clone(), maps: m.to_vec(), st: true }));
    each(if q { &few } else { maps }, &mut v, |m| Arc::new(FrameGen { polys: h43.clone(), maps: m.to_vec(), st: true }));
    let o43 = Polys::grid(4, 3, if q { 7 } else { 9 });
    each(maps, &mut v, |m| Arc::new(HoleGen::new(&o43, m, false)));
    each(maps, &mut v, |m| Arc::new(HoleGen::new(&p33, m, true)));
    let s33 = Polys::grid(3, 3, 4);
    let s35 = Polys::grid(3, 3, if q { 5 } else { 6 });
    for above in [false, true] {
        each(maps, &mut v, |m| Arc::new(PairGen { a: s33.clone(), b: s35.clone(), maps: m.to_vec(), above }));
    }
    for k in 0..3 {
        each(if q { &few } else { maps }, &mut v, |m| Arc::new(SubsetGen { w: 4, h: 4, frame: k, maps: m.to_vec() }));
    }
    each(&named(maps, "id rot slant jit2 near zero"), &mut v, |m| Arc::new(FarGen { polys: p33.clone(), maps: m.to_vec() }));
    let p44 = Polys::grid(4, 4, if q { 7 } else { 9 });
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p44, m, St::None)));
    if !q {
        // deeper, a few maps
        each(&few, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::Pair)));
        for t in 0..4 {
            each(maps, &mut v, |m| Arc::new(ChainGen { k: 9, m: 4, both: false, turn: t, maps: m.to_vec() }));
            each(&few, &mut v, |m| Arc::new(ChainGen { k: 5, m: 4, both: true, turn: t, maps: m.to_vec() }));
            each(maps, &mut v, |m| Arc::new(CombGen { k: 5, turn: t, maps: m.to_vec() }));
        }
        for k in PERMS {
            each(&few, &mut v, |m| Arc::new(PermGen { k: 9, kind: k, maps: m.to_vec() }));
        }
        let p53 = Polys::grid(5, 3, 9);
        each(maps, &mut v, |m| Arc::new(PolyGen::new(&p53, m, St::Any)));
        let p44 = Polys::grid(4, 4, 8);
        each(&few, &mut v, |m| Arc::new(PolyGen::new(&p44, m, St::Any)));
        let p35 = Polys::grid(3, 5, 9);
        each(&few, &mut v, |m| Arc::new(PolyGen::new(&p35, m, St::Any)));
        for k in 0..3 {
            each(&few, &mut v, |m| Arc::new(SubsetGen { w: 5, h: 4, frame: k, maps: m.to_vec() }));
        }
        let p4411 = Polys::grid(4, 4, 11);
        each(&few, &mut v, |m| Arc::new(PolyGen::new(&p4411, m, St::None)));
    }
    v
}

fn outside_gens(q: bool) -> Vec<G> {
    let maps = ALL_MAPS;
    let few = named(maps, "id rot jit2 near");
    let mut v: Vec<G> = vec![];
    let p33 = Polys::grid(3, 3, 9);
    let p43 = Polys::grid(4, 3, if q { 10 } else { 12 });
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::Out)));
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::Pair)));
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::All)));
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::All)));
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::Out)));
    each(maps, &mut v, |m| Arc::new(FrameGen { polys: p33.clone(), maps: m.to_vec(), st: true }));
    let h43 = Polys::grid(4, 3, if q { 6 } else { 10 });
    each(maps, &mut v, |m| Arc::new(FrameGen { polys: h43.clone(), maps: m.to_vec(), st: true }));
    each(if q { &few } else { maps }, &mut v, |m| Arc::new(SubsetGen { w: 4, h: 4, frame: 2, maps: m.to_vec() }));
    each(&named(maps, "id rot shear slant jit2 near zero"), &mut v, |m| Arc::new(FarGen { polys: p33.clone(), maps: m.to_vec() }));
    v.push(Arc::new(LargeGen { sizes: (8..if q { 120 } else { 1000 }).collect(), shapes: vec!["outside_points"] }));
    let sizes = if q { (8..24).chain([60, 300]).collect() } else { (8..80).chain([120, 300, 1000, 3000]).collect() };
    let littered = Arc::new(LitteredGen(LargeGen { sizes, shapes: SHAPES.to_vec() }));
    v.extend(in_places(littered.clone(), PLACES));
    v.push(littered);
    if !q {
        each(&few, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::Pair)));
        each(&few, &mut v, |m| Arc::new(SubsetGen { w: 5, h: 4, frame: 2, maps: m.to_vec() }));
        let p44 = Polys::grid(4, 4, 8);
        each(&few, &mut v, |m| Arc::new(PolyGen::new(&p44, m, St::Out)));
    }
    v
}

/// for the checks that look at every state
#[cfg(feature = "internals")]
fn observer_gens(q: bool) -> Vec<G> {
    let mut v = state_gens(q, ALL_MAPS);
    v.push(structured(if q { 48 } else { 90 }, if q { &[90, 200] } else { &[150, 220, 400] }));
    v.extend(in_places(structured(if q { 24 } else { 40 }, if q { &[40, 100] } else { &[70, 100, 200] }), PLACES));
    v
}

/// the ones that ask many questions in every state
#[cfg(any(feature = "front", feature = "store"))]
fn query_gens(q: bool) -> Vec<G> {
    let mut v = state_gens(q, &if q { named(ALL_MAPS, "id rot shearl slant jit2 near quad zero edge edgex") } else { ALL_MAPS.to_vec() });
    v.push(structured(if q { 24 } else { 40 }, if q { &[36, 60] } else { &[60, 100] }));
    v.extend(in_places(structured(if q { 14 } else { 24 }, if q { &[20, 30] } else { &[30, 40] }), PLACES));
    v
}

#[cfg(feature = "internals")]
fn state_gens(q: bool, maps: &[Map]) -> Vec<G> {
    let few = named(maps, "id rot jit2 near");
    let mut v: Vec<G> = vec![];
    let p33 = Polys::grid(3, 3, 9);
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::Any)));
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::All)));
    each(&few, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::Pair)));
    let p43 = Polys::grid(4, 3, if q { 8 } else { 12 });
    each(maps, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::None)));
    each(if q { &few } else { maps }, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::Any)));
    let s = Polys::grid(3, 3, if q { 6 } else { 9 });
    each(maps, &mut v, |m| Arc::new(FrameGen { polys: s.clone(), maps: m.to_vec(), st: true }));
    each(maps, &mut v, |m| Arc::new(HoleGen::new(&s, m, true)));
    let s33 = Polys::grid(3, 3, if q { 3 } else { 4 });
    for above in [false, true] {
        each(maps, &mut v, |m| Arc::new(PairGen { a: s33.clone(), b: s33.clone(), maps: m.to_vec(), above }));
    }
    for k in PERMS {
        each(if q { &few } else { maps }, &mut v, |m| Arc::new(PermGen { k: if q { 6 } else { 7 }, kind: k, maps: m.to_vec() }));
    }
    for t in 0..4 {
        each(&few, &mut v, |m| Arc::new(CombGen { k: 4, turn: t, maps: m.to_vec() }));
        each(if q { &few } else { maps }, &mut v, |m| Arc::new(ChainGen { k: if q { 6 } else { 7 }, m: 4, both: false, turn: t, maps: m.to_vec() }));
    }
    for k in 0..3 {
        let (w, h) = if q { (3, 3) } else { (4, 4) };
        each(&few, &mut v, |m| Arc::new(SubsetGen { w, h, frame: k, maps: m.to_vec() }));
    }
    v
}

/// all sizes up to some, and a few more
fn structured(up_to: i64, more: &[i64]) -> G {
    let mut sizes: Vec<i64> = (8..up_to).collect();
    sizes.extend(more);
    Arc::new(LargeGen { sizes, shapes: SHAPES.to_vec() })
}

/// for the checks that run many variants of each case
fn small_gens(q: bool, affine_too: bool) -> Vec<G> {
    let maps: Vec<Map> =
        if affine_too { ALL_MAPS.to_vec() } else { named(ALL_MAPS, "id rot shear shearl slant jit jit2 jit3 wide tall near quad grow neg zero") };
    let few = named(&maps, "id rot jit2 near");
    let mut v: Vec<G> = vec![];
    let p33 = Polys::grid(3, 3, 9);
    each(&maps, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::Any)));
    each(&few, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::Pair)));
    each(&maps, &mut v, |m| Arc::new(PolyGen::new(&p33, m, St::All)));
    let p43 = Polys::grid(4, 3, if q { 7 } else { 12 });
    each(if q { &few } else { &maps }, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::Any)));
    each(&maps, &mut v, |m| Arc::new(PolyGen::new(&p43, m, St::All)));
    let s = Polys::grid(3, 3, if q { 5 } else { 9 });
    each(&maps, &mut v, |m| Arc::new(FrameGen { polys: s.clone(), maps: m.to_vec(), st: true }));
    let h33 = Polys::grid(3, 3, if q { 6 } else { 9 });
    each(&maps, &mut v, |m| Arc::new(HoleGen::new(&h33, m, true)));
    let s33 = Polys::grid(3, 3, if q { 3 } else { 4 });
    for above in [false, true] {
        each(&maps, &mut v, |m| Arc::new(PairGen { a: s33.clone(), b: s33.clone(), maps: m.to_vec(), above }));
    }
    for k in PERMS {
        each(if q { &few } else { &maps }, &mut v, |m| Arc::new(PermGen { k: if q { 6 } else { 7 }, kind: k, maps: m.to_vec() }));
    }
    for t in 0..4 {
        each(&few, &mut v, |m| Arc::new(CombGen { k: 4, turn: t, maps: m.to_vec() }));
        each(&few, &mut v, |m| Arc::new(ChainGen { k: if q { 5 } else { 7 }, m: 4, both: false, turn: t, maps: m.to_vec() }));
    }
    for k in 0..3 {
        let (w, h) = if q { (3, 3) } else { (4, 4) };
        each(&few, &mut v, |m| Arc::new(SubsetGen { w, h, frame: k, maps: m.to_vec() }));
    }
    v.push(structured(if q { 24 } else { 80 }, if q { &[60, 300] } else { &[120, 300, 1000, 3000] }));
    // similarity moves and scales them further
    let places = if affine_too { PLACES } else { &["zeros", "zeros below", "turn 90", "oblique"] };
    v.extend(in_places(structured(if q { 24 } else { 60 }, if q { &[30, 100, 500] } else { &[120, 300, 1000] }), places));
    v
}

const F32_SHAPES: &[&str] = &[
    "comb_up", "comb_down", "comb_left", "comb_right", "zigzag", "staircase", "strip_x", "strip_y", "grid_points",
    "grid_points_jit", "holes_grid", "holes_row", "sawtooth_both", "two_combs", "outside_points", "hilbert_points",
    "nested_v", "big_hole_comb",
];

/// more than 2^16 points, and fast enough for that
const FAST: &[&str] = &[
    "convex", "grid_points", "hilbert_points", "comb_down", "staircase", "parabola", "cocircular", "star", "sliver_up",
    "sliver_left", "sliver_flat", "bowl", "saw_edge", "half_fan", "needle",
];
const DOMES: &[&str] = &["dome_right", "dome_left", "dome_wide"];

fn large(q: bool) -> Vec<Box<dyn Space>> {
    let f: CaseCheck = props::all;
    let all = SHAPES.to_vec();
    let mut v: Vec<Box<dyn Space>> = vec![];
    let mut add = |sizes: Vec<i64>, shapes: &[&'static str], limit_s: u64, chunk: u64| {
        v.push(Box::new(props::CaseSpace {
            gen: Arc::new(LargeGen { sizes, shapes: shapes.to_vec() }),
            check: f,
            limit_s,
            chunk,
        }));
    };
    add(if q { vec![70000] } else { vec![40000, 65534, 65535, 65536, 65537, 70000, 140000] }, FAST, 240, 1);
    // more than 2^16 holes, more than 2^20 triangles
    add(vec![280_000], &["holes_grid"], 240, 1);
    add(if q { vec![600_000] } else { vec![600_000, 2_200_000] }, &["hilbert_points"], 900, 1);
    add(if q { vec![25000] } else { vec![25000, 65535, 65536, 70000] }, DOMES, if q { 240 } else { 900 }, 1);
    add(vec![20000], &all, 240, 1);
    add((8..if q { 260 } else { 1200 }).collect(), &all, 60, 8);
    add(if q { vec![1000, 2500, 5000] } else { (1..50).map(|k| 200 * k).collect() }, &all, 60, 1);
    for k in 0..PLACES.len() {
        let base = Arc::new(LargeGen { sizes: if q { vec![700, 3000] } else { vec![700, 1500, 3000, 8000, 20000] }, shapes: SHAPES.to_vec() });
        let gen = Arc::new(PlacedGen { base, places: &PLACES[k..k + 1] });
        v.push(Box::new(props::CaseSpace { gen, check: f, limit_s: 60, chunk: 1 }));
    }
    v
}
