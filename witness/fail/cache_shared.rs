// expect: E0277
extern crate object;
use object::read::ReadCache;
fn sync<T: Sync>() {}
fn any<T>() {}
pub fn f() {
    #[cfg(not(good))]
    sync::<ReadCache<std::io::Cursor<Vec<u8>>>>();
    #[cfg(good)]
    any::<ReadCache<std::io::Cursor<Vec<u8>>>>();
}
