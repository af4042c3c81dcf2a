// expect: E0502
extern crate object;
use object::read::{ReadCache, ReadRef};
pub fn f() -> usize {
    let mut c = ReadCache::new(std::io::Cursor::new(Vec::<u8>::new()));
    let d = (&c).read_bytes_at(0, 1).unwrap();
    #[cfg(not(good))]
    c.clear();
    d.len()
}
