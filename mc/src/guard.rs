//! Worker of C15: encodes with every heap allocation and the caller's image in guarded memory.
//! See checks/c15.rs.

#[cfg(not(feature = "asan"))]
#[global_allocator]
static A: mc::fence::Fence = mc::fence::Fence;

fn main() {
    mc::checks::c15::worker();
}
