//! petgraph 0.6's interface as ogma uses it, over petgraph 0.8.
pub use petgraph08::{data, dot, graph, prelude, stable_graph, unionfind, visit, Directed, Direction, EdgeDirection, EdgeType, Graph, Incoming, Outgoing, Undirected};
pub mod algo {
    pub use petgraph08::algo::*;
    use petgraph08::{visit::{IntoNeighborsDirected, NodeCount}, Direction::Outgoing};
    use std::{hash::Hash, iter::FromIterator};
    /// petgraph 0.8 adds a hasher parameter; 0.6 does not have it.
    pub fn all_simple_paths<T, G>(g: G, from: G::NodeId, to: G::NodeId, min: usize, max: Option<usize>) -> impl Iterator<Item = T>
    where G: NodeCount + IntoNeighborsDirected, G::NodeId: Eq + Hash, T: FromIterator<G::NodeId> {
        let _ = Outgoing;
        petgraph08::algo::all_simple_paths::<T, G, std::collections::hash_map::RandomState>(g, from, to, min, max)
    }
}
