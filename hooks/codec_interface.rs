pub mod verif {
    use super::super::{DivansCodec, EncodeOrDecodeState};
    use super::*;
    use threading::ThreadToMain;
    impl<ArithmeticCoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>, Specialization: EncoderOrDecoderSpecialization, LinearInputBytes: StreamDemuxer<AllocU8> + ThreadToMain<AllocU8>,
         LinearOutputBytes: StreamMuxer<AllocU8> + Default, Cdf16: CDF16, AllocU8: Allocator<u8>, AllocCDF16: Allocator<Cdf16>>
        DivansCodec<ArithmeticCoder, Specialization, LinearInputBytes, LinearOutputBytes, Cdf16, AllocU8, AllocCDF16> {
        pub fn v_copy(&self) -> CopyCommand { self.state_copy.cc.clone() }
        pub fn v_dict(&self) -> DictCommand { self.state_dict.dc.clone() }
        pub fn v_from_mnemonic(lru: &[u32; 4], code: u8, l: u32) -> (u32, bool) { let r = get_distance_from_mnemonic_code(lru, code, l); (r.0, r.1) }
        pub fn v_begin(&self) -> bool { match self.state { EncodeOrDecodeState::Begin => true, _ => false } }
        pub fn v_end(&self) -> bool { match self.state { EncodeOrDecodeState::WriteChecksum(_) | EncodeOrDecodeState::EncodedShutdownNode => true, _ => false } }
    }
}
