// expect: E0515 E0597 E0505
extern crate object;
use object::read::{ReadCache, ReadRef};
pub fn f() -> usize {
    let c = ReadCache::new(std::io::Cursor::new(Vec::<u8>::new()));
    let d = {
        #[cfg(not(good))]
        let c = ReadCache::new(std::io::Cursor::new(Vec::<u8>::new()));
        let r = &c;
        r.read_bytes_at(0, 1).unwrap()
    };
    d.len()
}
