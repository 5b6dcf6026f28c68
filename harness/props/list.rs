// Shared module list and the entry table used by the native replayer.
#[path = "qr.rs"]
pub mod qr;
#[path = "decode_props.rs"]
pub mod decode_props;
#[path = "seg_props.rs"]
pub mod seg_props;
#[path = "img_props.rs"]
pub mod img_props;
#[path = "grid_props.rs"]
pub mod grid_props;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        #[allow(dead_code)]
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($f), $m::$f)),*];
    };
}
entries! {
    decode_props::h_roundtrip,
    decode_props::h_format,
    decode_props::h_format_decode,
    decode_props::h_ecc,
    decode_props::h_ecc_beyond,
    decode_props::h_raw,
    seg_props::h_seg,
    seg_props::h_stream,
    seg_props::h_writer,
    seg_props::h_text,
    grid_props::h_mirror_err,
    grid_props::h_any,
    grid_props::h_simple,
    grid_props::h_version,
    grid_props::h_push,
    grid_props::h_mirror_payload,
    img_props::h_detect,
    img_props::h_bitmap,
    img_props::h_grey,
    img_props::h_total,
    img_props::h_multi,
    img_props::h_crowd,
}
