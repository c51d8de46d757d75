// @begin modulus
#[allow(dead_code)] pub fn modulus64(a: f64, b: f64) -> f64 { modulus(a, b) }
// @end
// @begin lossless
#[allow(dead_code)] pub fn join(parts: &[&str]) -> CompactString { let mut j = LosslessJoin::new(); for p in parts { j.push(p) } j.finish() }
#[allow(dead_code)] pub fn split<'a>(src: &'a str) -> Vec<&'a str> { lossless_split(src).collect() }
// @end
// @begin base64
#[allow(dead_code)] pub fn b64_enc(x: &[u8]) -> CompactString { base64_encode(x) }
#[allow(dead_code)] pub fn b64_dec(x: &str) -> Option<Vec<u8>> { base64_decode(x).ok() }
// @end
