// expect: E0277
extern crate object;
#[derive(Clone, Copy)]
#[repr(C)]
pub struct S(u8, u32);
#[cfg(good)]
unsafe impl object::pod::Pod for S {}
pub fn f(d: &S) -> &[u8] {
    object::pod::bytes_of(d)
}
