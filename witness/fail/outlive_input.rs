// expect: E0515 E0597 E0505
extern crate object;
use object::{Object, ObjectSection};
pub fn f() -> usize {
    let v: Vec<u8> = Vec::new();
    let d = {
        #[cfg(not(good))]
        let w = v.clone();
        #[cfg(good)]
        let w = &v;
        let f = object::File::parse(&w[..]).unwrap();
        let s = f.sections().next().unwrap();
        s.data().unwrap()
    };
    d.len()
}
