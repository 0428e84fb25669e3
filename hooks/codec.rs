pub mod verif {
    pub mod crc {
        pub use super::super::crc32::{crc32c_init, crc32c_update, fallback_crc32c_update};
        pub use super::super::crc32_table::TABLE16;
    }
}
