// expect: E0515 E0597 E0505
extern crate object;
pub fn f() -> u32 {
    let v: Vec<u8> = Vec::new();
    let d: &[u32] = {
        #[cfg(not(good))]
        let w = v.clone();
        #[cfg(good)]
        let w = &v;
        object::pod::slice_from_bytes::<u32>(&w[..], 1).unwrap().0
    };
    d[0]
}
