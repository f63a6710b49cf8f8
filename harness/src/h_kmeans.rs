//! k-means: the clusters partition the points, centroids are the means, it ends.
use crate::geom::Distance;
use crate::kmeans::{cluster, Point};
use crate::sx;

#[derive(Clone)]
struct P { v: [u32; 2], id: usize }
impl Distance for P {
    fn dist(&self, o: &Self) -> f64 {
        let d = |i: usize| { let t = self.v[i] as i64 - o.v[i] as i64; (t * t) as f64 };
        (d(0) + d(1)).sqrt()
    }
}
impl Point for P {
    fn mean(p: &[Self]) -> Option<Self> {
        if p.is_empty() { return None; }
        let n = p.len() as u32;
        Some(P { v: [p.iter().map(|x| x.v[0]).sum::<u32>() / n, p.iter().map(|x| x.v[1]).sum::<u32>() / n], id: usize::MAX })
    }
}
const TEMPLATES: [&[u32]; 4] = [&[1, 7, 0, 5, 1, 0], &[1, 7, 0, 5, 1, 0, 30, 31], &[101, 107, 100, 105, 101, 100, 1, 7, 0, 5, 1, 0], &[0, 60, 60, 61, 99, 20, 21, 200]];
/// points following a template (most of which make a cluster lose all its points), `vary` of them arbitrary
#[no_mangle]
pub extern "C" fn sx_main_kmeans_near() {
    let t = TEMPLATES[sx::param("t") as usize];
    let mut v: Vec<[u32; 2]> = t.iter().map(|x| [*x * sx::param("scale") as u32, 0]).collect();
    let at = sx::choose(v.len());
    for i in 0..sx::param("vary") as usize { let j = (at + i * 2) % v.len(); v[j][0] = crate::util::letter(sx::param("alpha")) as u32; }
    let pts: Vec<P> = v.into_iter().enumerate().map(|(id, v)| P { v, id }).collect();
    check(pts, sx::param("k0") as usize + sx::choose(sx::param("k") as usize));
}
/// n points, asked for k clusters; the second coordinate is arbitrary too when dims = 2
#[no_mangle]
pub extern "C" fn sx_main_kmeans() {
    let n = sx::param("n") as usize;
    let k = 1 + sx::choose(sx::param("k") as usize);
    let a = sx::param("alpha");
    let pts: Vec<P> = (0..n).map(|id| P { v: [crate::util::letter(a) as u32, if sx::param("dims") == 2 { crate::util::letter(a) as u32 } else { 0 }], id }).collect();
    if sx::param("distinct") == 1 { for i in 0..n { for j in 0..i { sx::assume((pts[i].v[0] != pts[j].v[0]) | (pts[i].v[1] != pts[j].v[1])); } } }
    check(pts, k);
}
fn check(pts: Vec<P>, k: usize) {
    let n = pts.len();
    let r: Vec<(P, Vec<P>)> = cluster(pts.clone(), k).into_iter().collect();
    let mut seen = vec![0; n];
    for (_, ps) in &r { for p in ps { seen[p.id] += 1; sx::check((p.v[0] == pts[p.id].v[0]) & (p.v[1] == pts[p.id].v[1]), "a point was changed"); } }
    sx::check(seen.iter().all(|c| *c == 1), "the clusters do not partition the points");
    sx::check(r.len() <= k, "more clusters than asked for");
    for (c, ps) in &r {
        if let Some(m) = P::mean(ps) { sx::check((m.v[0] == c.v[0]) & (m.v[1] == c.v[1]), "a centroid is not the mean of its cluster"); }
    }
    if n <= k {
        let mut distinct = true;
        for i in 0..n { for j in 0..i { distinct &= (pts[i].v[0] != pts[j].v[0]) | (pts[i].v[1] != pts[j].v[1]); } }
        sx::check((r.len() == n && r.iter().all(|x| x.1.len() == 1)) | !distinct, "with as many clusters as distinct points, each point is a cluster");
    }
    for (c, ps) in &r { sx::log(&[c.v[0] as u8, c.v[1] as u8, ps.len() as u8]); }
    sx::reach(1);
}
