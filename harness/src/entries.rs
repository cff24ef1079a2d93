#[path = "bits.rs"]
pub mod bits;
#[path = "sym.rs"]
pub mod sym;
#[path = "os.rs"]
pub mod os;
#[path = "mk.rs"]
pub mod mk;
#[path = "e_headers.rs"]
pub mod e_headers;
#[path = "e_bitpack.rs"]
pub mod e_bitpack;

#[path = "spec.rs"]
pub mod spec;
#[path = "e_setup.rs"]
pub mod e_setup;
#[path = "e_audio.rs"]
pub mod e_audio;
#[path = "e_ogg.rs"]
pub mod e_ogg;
#[cfg(feature = "cli")]
#[path = "e_cli.rs"]
pub mod e_cli;

/// entry points known to the native replay
#[allow(dead_code)]
pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[
    ("h_b01_roundtrip", e_bitpack::h_b01_roundtrip),
    ("h_b02_read", e_bitpack::h_b02_read),
    ("h_v01_ident", e_headers::h_v01_ident),
    ("h_v02_any", e_headers::h_v02_any),
    ("h_v02_structured", e_headers::h_v02_structured),
    ("h_v02_tags", e_headers::h_v02_tags),
    ("h_b03_float", e_bitpack::h_b03_float),
    ("h_set_books", e_setup::h_set_books),
    ("h_set_floors", e_setup::h_set_floors),
    ("h_set_points", e_setup::h_set_points),
    ("h_set_residues", e_setup::h_set_residues),
    ("h_set_mappings", e_setup::h_set_mappings),
    ("h_set_modes", e_setup::h_set_modes),
    ("h_set_cut", e_setup::h_set_cut),
    ("h_set_window", e_setup::h_set_window),
    ("h_aud_floor", e_audio::h_aud_floor),
    ("h_aud_residue", e_audio::h_aud_residue),
    ("h_aud_modes", e_audio::h_aud_modes),
    ("h_aud_maps", e_audio::h_aud_maps),
    ("h_aud_stats", e_audio::h_aud_stats),
    ("h_aud_big", e_audio::h_aud_big),
    ("h_ogg_granule", e_ogg::h_ogg_granule),
    ("h_ogg_pages", e_ogg::h_ogg_pages),
    ("h_ogg_many", e_ogg::h_ogg_many),
    ("h_ogg_granule_many", e_ogg::h_ogg_granule_many),
    ("h_ogg_random", e_ogg::h_ogg_random),
    ("h_ogg_serials", e_ogg::h_ogg_serials),
    ("h_ogg_mux", e_ogg::h_ogg_mux),
    ("h_ogg_damage", e_ogg::h_ogg_damage),
    ("h_ogg_prefix", e_ogg::h_ogg_prefix),
    ("h_ogg_container", e_ogg::h_ogg_container),
    ("h_ogg_mangler", e_ogg::h_ogg_mangler),
    ("h_ogg_twice", e_ogg::h_ogg_twice),
    ("h_ogg_epoch", e_ogg::h_ogg_epoch),
    ("h_ogg_faults", e_ogg::h_ogg_faults),
    #[cfg(feature = "cli")]
    ("h_cli_options", e_cli::h_cli_options),
    #[cfg(feature = "cli")]
    ("h_cli_usage", e_cli::h_cli_usage),
    #[cfg(feature = "cli")]
    ("h_cli_faults", e_cli::h_cli_faults),
    #[cfg(optivorbis_verif)]
    ("h_len_counts", e_audio::h_len_counts),
];
