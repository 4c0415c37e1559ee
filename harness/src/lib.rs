pub mod alloc;
pub mod arrays;
pub mod bases;
pub mod child;
pub mod erased;
pub mod fw;
pub mod held;
pub mod memory;
pub mod model;
pub mod num;
pub mod sched;
pub mod sf;

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;
