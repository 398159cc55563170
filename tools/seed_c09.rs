use image::{Rgb, RgbImage};
use image_palette_recoloring::*;
fn main() {
    let mut i = RgbImage::new(2, 65539);
    for k in 0..2 * 65539u32 { let x = k.wrapping_mul(2654435761); i.put_pixel(k % 2, k / 2, Rgb([x as u8, (x >> 9) as u8, (x >> 20) as u8])); }
    let ok = std::panic::catch_unwind(|| ImageWeights::new(&i)).is_ok();
    println!("{}", ok);
    std::process::exit(!ok as i32);
}
