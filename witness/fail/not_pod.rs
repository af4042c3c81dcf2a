// expect: E0277
extern crate object;
#[derive(Clone, Copy)]
#[repr(C)]
pub struct S(bool);
#[cfg(good)]
unsafe impl object::pod::Pod for S {}
pub fn f(d: &[u8]) -> bool {
    object::pod::from_bytes::<S>(d).is_ok()
}
