//! A datastore that hesitates: every call reaches the datastore within, after a random delay, so that what the library
//! does in several calls is spread out and others get in between.
use indradb::{BulkInsertItem, Datastore, DynIter, Edge, Identifier, Json, Result, Transaction, Vertex};
use std::cell::Cell;
use uuid::Uuid;

pub struct Noisy<D> {
    pub inner: D,
    /// 0: never; otherwise the higher, the more often
    pub level: u32,
}
thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
}
fn noise(level: u32) {
    let x = STATE.with(|s| {
        let mut x = s.get();
        if x == 0 {
            x = crate::report::h64(&format!("{:?}", std::thread::current().id())) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        x >> 11
    });
    if x as u32 % 8 >= level {
        return;
    }
    match (x >> 8) % 16 {
        0..=5 => std::thread::yield_now(),
        6..=13 => (0..(x >> 16) % 3000).for_each(|_| std::hint::spin_loop()),
        _ => std::thread::sleep(std::time::Duration::from_micros((x >> 16) % 100)),
    }
}
/// A datastore whose transactions take a while to start.
pub struct Sluggish<D> {
    pub inner: D,
    pub millis: std::sync::atomic::AtomicU64,
}
impl<D: Datastore> Datastore for Sluggish<D> {
    type Transaction<'a>
        = D::Transaction<'a>
    where
        Self: 'a;
    fn transaction(&self) -> Self::Transaction<'_> {
        std::thread::sleep(std::time::Duration::from_millis(self.millis.load(std::sync::atomic::Ordering::SeqCst)));
        self.inner.transaction()
    }
}
pub struct NoisyTxn<T> {
    inner: T,
    level: u32,
}
impl<D: Datastore> Datastore for Noisy<D> {
    type Transaction<'a>
        = NoisyTxn<D::Transaction<'a>>
    where
        Self: 'a;
    fn transaction(&self) -> Self::Transaction<'_> {
        noise(self.level);
        NoisyTxn { inner: self.inner.transaction(), level: self.level }
    }
}
macro_rules! pass {
    ($( ($($recv:tt)*) $s:ident . $f:ident ( $($a:ident : $t:ty),* ) -> $r:ty; )*) => { $(
        fn $f($($recv)*, $($a: $t),*) -> $r {
            noise($s.level);
            $s.inner.$f($($a),*)
        }
    )* }
}
impl<'a, T: Transaction<'a>> Transaction<'a> for NoisyTxn<T> {
    pass! {
        (&self) self.vertex_count() -> u64;
        (&'a self) self.all_vertices() -> Result<DynIter<'a, Vertex>>;
        (&'a self) self.range_vertices(offset: Uuid) -> Result<DynIter<'a, Vertex>>;
        (&'a self) self.specific_vertices(ids: Vec<Uuid>) -> Result<DynIter<'a, Vertex>>;
        (&'a self) self.vertex_ids_with_property(name: Identifier) -> Result<Option<DynIter<'a, Uuid>>>;
        (&'a self) self.vertex_ids_with_property_value(name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Uuid>>>;
        (&self) self.edge_count() -> u64;
        (&'a self) self.all_edges() -> Result<DynIter<'a, Edge>>;
        (&'a self) self.range_edges(offset: Edge) -> Result<DynIter<'a, Edge>>;
        (&'a self) self.range_reversed_edges(offset: Edge) -> Result<DynIter<'a, Edge>>;
        (&'a self) self.specific_edges(edges: Vec<Edge>) -> Result<DynIter<'a, Edge>>;
        (&'a self) self.edges_with_property(name: Identifier) -> Result<Option<DynIter<'a, Edge>>>;
        (&'a self) self.edges_with_property_value(name: Identifier, value: &Json) -> Result<Option<DynIter<'a, Edge>>>;
        (&self) self.vertex_property(vertex: &Vertex, name: Identifier) -> Result<Option<Json>>;
        (&'a self) self.all_vertex_properties_for_vertex(vertex: &Vertex) -> Result<DynIter<'a, (Identifier, Json)>>;
        (&self) self.edge_property(edge: &Edge, name: Identifier) -> Result<Option<Json>>;
        (&'a self) self.all_edge_properties_for_edge(edge: &Edge) -> Result<DynIter<'a, (Identifier, Json)>>;
        (&mut self) self.delete_vertices(vertices: Vec<Vertex>) -> Result<()>;
        (&mut self) self.delete_edges(edges: Vec<Edge>) -> Result<()>;
        (&mut self) self.delete_vertex_properties(props: Vec<(Uuid, Identifier)>) -> Result<()>;
        (&mut self) self.delete_edge_properties(props: Vec<(Edge, Identifier)>) -> Result<()>;
        (&self) self.sync() -> Result<()>;
        (&mut self) self.create_vertex(vertex: &Vertex) -> Result<bool>;
        (&mut self) self.create_edge(edge: &Edge) -> Result<bool>;
        (&mut self) self.bulk_insert(items: Vec<BulkInsertItem>) -> Result<()>;
        (&mut self) self.index_property(name: Identifier) -> Result<()>;
        (&mut self) self.set_vertex_properties(vertices: Vec<Uuid>, name: Identifier, value: &Json) -> Result<()>;
        (&mut self) self.set_edge_properties(edges: Vec<Edge>, name: Identifier, value: &Json) -> Result<()>;
    }
}
