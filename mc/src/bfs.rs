//! Breadth-first exploration of the reachable ledgers.
use {
    crate::{core::*, report::Ctx},
    serde_json::json,
    std::{collections::HashSet, sync::Arc},
};

pub struct Link {
    pub label: String,
    pub prev: Option<Arc<Link>>,
}
#[derive(Clone)]
pub struct Node {
    pub w: World,
    /// history flags that the ledger does not show
    pub ghost: u64,
    pub trace: Option<Arc<Link>>,
    pub depth: usize,
}
impl Node {
    pub fn root(w: World) -> Node {
        Node { w, ghost: 0, trace: None, depth: 0 }
    }
    pub fn next(&self, label: impl Into<String>, w: World, ghost: u64) -> Node {
        Node { w, ghost, depth: self.depth + 1, trace: Some(Arc::new(Link { label: label.into(), prev: self.trace.clone() })) }
    }
    pub fn history(&self) -> Vec<String> {
        let mut v = vec![];
        let mut l = self.trace.clone();
        while let Some(x) = l {
            v.push(x.label.clone());
            l = x.prev.clone();
        }
        v.reverse();
        v
    }
    fn id(&self) -> u128 {
        self.w.hash() ^ (self.ghost as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835)
    }
}

/// Explores every history of at most `depth` steps. `expand` checks the state
/// and its transitions and returns the successors. Returns distinct states per
/// level and whether all levels were completed.
pub fn explore(ctx: &Ctx, pool: &Pool, name: &str, init: Vec<Node>, depth: usize, max_states: usize, expand: impl Fn(&mut Svm, &Node) -> Vec<Node> + Sync) -> bool {
    let mut seen: HashSet<u128> = HashSet::new();
    let mut level: Vec<Node> = vec![];
    for n in init {
        if seen.insert(n.id()) {
            level.push(n);
        }
    }
    let mut per_level = vec![];
    let mut complete = true;
    let mut fixpoint = false;
    for d in 0..=depth {
        per_level.push(level.len());
        for _ in &level {
            ctx.state();
        }
        if let Some(n) = level.last() {
            if d == depth.min(3) {
                ctx.sample(json!({"scenario": name, "history": n.history()}));
            }
        }
        let succ = pool.map(&level, |svm, n| if ctx.enough() { vec![] } else { expand(svm, n).into_iter().map(|n| (n.id(), n)).collect() });
        if d == depth || ctx.enough() {
            break;
        }
        let mut next = vec![];
        for (id, n) in succ.into_iter().flatten() {
            if seen.insert(id) {
                next.push(n);
            }
        }
        if next.is_empty() {
            fixpoint = true;
            break;
        }
        if seen.len() > max_states {
            complete = false;
            ctx.bound(format!("{name}: stopped after depth {d} completed, next level of {} states not expanded (memory bound)", next.len()));
            break;
        }
        level = next;
    }
    ctx.put(&format!("states_per_depth[{name}]"), json!(per_level));
    if fixpoint {
        ctx.put(&format!("fixpoint[{name}]"), true);
    }
    complete
}
