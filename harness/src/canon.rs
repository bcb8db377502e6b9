//! What an IFD shows, as text. Shared with the feature probe (/verif/probe).
use async_tiff::ImageFileDirectory;
use std::collections::BTreeMap;

/// Everything observable of an IFD, in a canonical order.
pub fn canon_raw(i: &ImageFileDirectory) -> String {
    let bits = |v: Option<&[f64]>| v.map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    let mut other: BTreeMap<u16, String> = BTreeMap::new();
    for (k, v) in i.other_tags() {
        other.insert(k.to_u16(), format!("{v:?}"));
    }
    format!(
        "{:?}",
        (
            (i.new_subfile_type(), i.image_width(), i.image_height(), i.bits_per_sample(), i.compression(),
             i.photometric_interpretation(), i.document_name(), i.image_description(), i.strip_offsets()),
            (i.orientation(), i.samples_per_pixel(), i.rows_per_strip(), i.strip_byte_counts(),
             i.min_sample_value(), i.max_sample_value(), i.x_resolution().map(f64::to_bits), i.y_resolution().map(f64::to_bits)),
            (i.planar_configuration(), i.resolution_unit(), i.software(), i.date_time(), i.artist(), i.host_computer(),
             i.predictor(), i.tile_width(), i.tile_height(), i.tile_offsets(), i.tile_byte_counts()),
            (i.extra_samples(), i.sample_format(), i.jpeg_tables(), i.copyright(), format!("{:?}", i.geo_key_directory()),
             bits(i.model_pixel_scale()), bits(i.model_tiepoint()), bits(i.model_transformation())),
            (i.gdal_nodata(), i.gdal_metadata(), i.lerc_parameters(), i.colormap(), other),
        )
    )
}

#[allow(dead_code)]
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (b.len() as u64).rotate_left(32)
}
