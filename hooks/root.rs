// Re-exports of private items for the harness in /verif/harness (included at the crate root under cfg(divans_verif)).
#[allow(unused_imports, dead_code, missing_docs)]
pub mod verif_hooks {
    // @section ans
    pub mod ans_ {
        pub use ::ans::{ANSDecoder, ANSEncoder, ByteStack, MAX_BUFFER_SIZE};
        pub use ::ans::verif::*;
        pub use ::arithmetic_coder::{ByteQueue, EntropyDecoder, EntropyEncoder};
    }
    // @section prob
    pub mod prob {
        pub use ::probability::*;
        pub use ::probability::numeric::*;
        pub use ::probability::div_lut::{RECIPROCAL, RECIPROCAL8};
        pub use ::probability::interface::{speed_to_u8, u8_to_speed, SymStartFreq};
    }
    // @section crc
    pub mod crc {
        pub use ::codec::verif::crc::*;
        pub use ::codec::decoder::{SubDigest, default_crc};
    }
    // @section header
    pub mod header {
        pub use ::divans_compressor::{make_header, write_header};
        pub use ::divans_decompressor::HeaderParser;
    }
    // @section ffi
    pub mod capi {
        pub use ::ffi::interface::{c_void, CAllocator};
    }
    // @section r2c
    pub mod r2c {
        pub use ::raw_to_cmd::RawToCmdState;
    }
    // @section cmd
    pub mod cmd {
        pub use ::codec::{CommandArray, CommandSliceArray, CrossCommandState, DivansCodec, EmptyCommandArray, EncoderOrDecoderSpecialization, StrideSelection, ThreadContext};
        pub use ::codec::block_type::{BlockTypeState, LiteralBlockTypeState};
        pub use ::codec::copy::CopyState;
        pub use ::codec::dict::DictState;
        pub use ::codec::io::DemuxerAndRingBuffer;
        pub use ::cmd_to_divans::EncoderSpecialization;
        pub use ::divans_to_raw::DecoderSpecialization;
        pub use ::interface::{ArithmeticEncoderOrDecoder, DefaultCDF16, NewWithAllocator, ReadableBytes, WritableBytes};
        pub use ::mux::{DevNull, Mux};
        pub use ::probability::*;
    }
    // @section weights
    pub use ::codec::weights::Weights;
    // @section priors
    pub mod priors {
        pub use ::codec::priors::*;
        pub use ::interface::CrossCommandBilling;
        pub use ::priors::{PriorCollection, PriorMultiIndex};
        pub use ::probability::{BaseCDF, Prob, ProbRange, Speed};
        pub use ::probability::interface::SymStartFreq;
    }
    // @section end
}
